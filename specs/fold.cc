#include "larq_compute_engine/mlir/transforms/bitpack.cc"
namespace spec {
using namespace mlir;
using compute_engine::core::TBitpacked;
// packs the constant into the layout of the runtime; anything but 4D float constants stays
DenseElementsAttr Bitpack(Builder* builder, Attribute x) {
  if (!x) return nullptr;
  auto type = x.cast<TypedAttr>().getType().cast<ShapedType>();
  auto shape = type.getShape();
  if (shape.size() != 4) return nullptr;
  if (!type.getElementType().isF32()) return nullptr;
  const int rows = shape[0] * shape[1] * shape[2], cols = shape[3], words = (cols + 31) / 32;
  auto in = x.cast<DenseElementsAttr>().getValues<float>();
  std::vector<TBitpacked> out(rows * words);
  for (int r = 0; r < rows; ++r)
    for (int k = 0; k < words; ++k) {
      const int n = std::min(32, cols - k * 32);
      TBitpacked word = 0;
      for (int c = 0; c < n; ++c)
        if (in[r * cols + k * 32 + c] < 0) word |= TBitpacked(1) << c;
      out[r * words + k] = word;
    }
  return DenseElementsAttr::get<TBitpacked>(RankedTensorType::get({shape[0], shape[1], shape[2], words}, builder->getIntegerType(32)), out);
}
// +1 for a clear bit and -1 for a set bit, in the (quantised) type of the result; anything else stays
int clamp(int v) { return v < -128 ? -128 : v > 127 ? 127 : v; }
DenseElementsAttr Unpack(Attribute x, ShapedType type) {
  if (!x) return nullptr;
  if (!type.hasStaticShape()) return nullptr;
  auto is = x.cast<TypedAttr>().getType().cast<ShapedType>().getShape();
  auto os = type.getShape();
  auto et = type.getElementType();
  if (is.size() != 4 || os.size() != 4) return nullptr;
  const int rows = os[0] * os[1] * os[2], cols = os[3], words = (cols + 31) / 32;
  if (is[0] != os[0] || is[1] != os[1] || is[2] != os[2] || is[3] != words) return nullptr;
  auto in = x.cast<DenseElementsAttr>().getValues<TBitpacked>();
  if (et.isF32()) {
    std::vector<float> out(rows * cols);
    for (int r = 0; r < rows; ++r)
      for (int c = 0; c < cols; ++c) out[r * cols + c] = (in[r * words + c / 32] >> (c % 32)) & 1 ? -1.0f : 1.0f;
    return DenseElementsAttr::get<float>(type, out);
  }
  auto q = et.dyn_cast<quant::UniformQuantizedType>();
  if (!q) return nullptr;
  const double scale = q.getScale();
  const int zp = q.getZeroPoint();
  const std::int8_t plus = clamp(zp + static_cast<int>(std::round(1.0 / scale))), minus = clamp(zp + static_cast<int>(std::round(-1.0 / scale)));
  std::vector<std::int8_t> out(rows * cols);
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c) out[r * cols + c] = (in[r * words + c / 32] >> (c % 32)) & 1 ? minus : plus;
  return DenseElementsAttr::get<std::int8_t>(type, out);
}
}  // namespace spec
