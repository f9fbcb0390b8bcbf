#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
#define pass fuse_padding_pass
#include "larq_compute_engine/mlir/transforms/fuse_padding.cc"
#undef pass
namespace spec {
using namespace mlir;
bool constant(Attribute values, float expected) {
  if (!values.isa<DenseElementsAttr>()) return false;
  for (float v : values.cast<DenseElementsAttr>().getValues<float>())
    if (v != expected) return false;
  return true;
}
DenseElementsAttr fill(TypedAttr filter, float val) {
  auto t = filter.getType().cast<ShapedType>();
  return DenseElementsAttr::get(RankedTensorType::get({t.getShape()[3]}, t.getElementType()), val);
}
// per output channel the magnitude of its filter values
DenseElementsAttr scale(TypedAttr attr) {
  auto t = attr.getType().cast<ShapedType>();
  auto filter = attr.cast<DenseElementsAttr>();
  const auto n = t.getShape()[3];
  std::vector<Attribute> out(n);
  for (std::size_t i = 0; i < n; ++i) out[i] = FloatAttr::get(t.getElementType(), std::abs(filter.getValues<float>()[{0, 0, 0, i}]));
  return DenseElementsAttr::get(RankedTensorType::get({n}, t.getElementType()), out);
}
// 4D float constants whose values are, per output channel, plus or minus one magnitude (to 0.5 %) that is not zero
bool binary(TypedAttr attr) {
  if (!attr.isa<DenseElementsAttr>()) return false;
  auto t = attr.getType().cast<ShapedType>();
  auto s = t.getShape();
  if (!t.getElementType().isF32() || s.size() != 4) return false;
  auto filter = attr.cast<DenseElementsAttr>();
  for (std::size_t h = 0; h < s[0]; ++h)
    for (std::size_t w = 0; w < s[1]; ++w)
      for (std::size_t i = 0; i < s[2]; ++i)
        for (std::size_t o = 0; o < s[3]; ++o) {
          float ref = filter.getValues<float>()[{0, 0, 0, o}];
          if (std::abs(ref) <= std::numeric_limits<float>::epsilon()) return false;
          if (std::abs(std::abs(filter.getValues<float>()[{h, w, i, o}] / ref) - 1.0f) > 0.005f) return false;
        }
  return true;
}
// explicit padding that equals SAME padding as far as input, output and stride tell
bool same1(DenseElementsAttr p, uint64_t d, int in, int out, int stride) {
  int before = p.getValues<int>()[{d, 0}], after = p.getValues<int>()[{d, 1}];
  return out == (in + stride - 1) / stride && (after == before || after == before + 1);
}
bool none(DenseElementsAttr p, uint64_t d) { return p.getValues<int>()[{d, 0}] == 0 && p.getValues<int>()[{d, 1}] == 0; }
bool pads(Attribute a) {
  if (!a.isa<DenseElementsAttr>()) return false;
  auto t = a.cast<DenseElementsAttr>().getType();
  return t.getRank() == 2 && t.getShape()[0] == 4 && t.getShape()[1] == 2;
}
bool shaped(Value v) {
  auto t = v.getType().dyn_cast<RankedTensorType>();
  return t && t.getShape().size() == 4;
}
int dim(Value v, int d) { return v.getType().dyn_cast<RankedTensorType>().getShape()[d]; }
bool same(Attribute paddings, Value input, Value output, ArrayAttr strides) {
  if (!pads(paddings) || !shaped(input) || !shaped(output)) return false;
  auto s = strides.getValue();
  if (!s[1].isa<IntegerAttr>() || !s[2].isa<IntegerAttr>()) return false;
  auto p = paddings.cast<DenseElementsAttr>();
  return none(p, 0) && none(p, 3) && same1(p, 1, dim(input, 1), dim(output, 1), s[1].cast<IntegerAttr>().getInt()) &&
         same1(p, 2, dim(input, 2), dim(output, 2), s[2].cast<IntegerAttr>().getInt());
}
bool partial(Attribute paddings, Value input, Value output, Attribute stride, uint64_t d) {
  if (!pads(paddings) || !shaped(input) || !shaped(output) || !stride.isa<IntegerAttr>()) return false;
  return same1(paddings.cast<DenseElementsAttr>(), d, dim(input, d), dim(output, d), stride.cast<IntegerAttr>().getInt());
}
// ... and is SAME padding whatever the filter: every filter size that gives the output its size has these paddings
bool aligned(Attribute paddings, Value input, Value output, Attribute stride, uint64_t d) {
  if (!partial(paddings, input, output, stride, d)) return false;
  auto p = paddings.cast<DenseElementsAttr>();
  int total = p.getValues<int>()[{d, 0}] + p.getValues<int>()[{d, 1}], s = stride.cast<IntegerAttr>().getInt();
  int least = total - (s - 1) < 0 ? 0 : total - (s - 1);
  return least / 2 == total / 2;
}
bool spatial(Attribute paddings) { return pads(paddings) && none(paddings.cast<DenseElementsAttr>(), 0) && none(paddings.cast<DenseElementsAttr>(), 3); }
// the filter's channels divide the input's; several groups need whole words
bool filtershape(Value input, Value filter) {
  auto is = input.getType().cast<ShapedType>().getShape(), fs = filter.getType().cast<ShapedType>().getShape();
  auto ci = is[is.size() - 1], cf = fs[fs.size() - 2];
  return ci % cf == 0 && (ci == cf || cf % 32 == 0);
}
IntegerAttr channels(Builder& b, Value v) {
  auto s = v.getType().cast<ShapedType>().getShape();
  return b.getI32IntegerAttr(s[s.size() - 1]);
}
}  // namespace spec
