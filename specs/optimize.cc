#include "larq_compute_engine/mlir/transforms/optimize.cc"
namespace spec {
using namespace mlir;
// Number of accumulator values x' in [0, a] (x' counts mismatches after the channel's weights were multiplied by the sign of its
// multiplier) whose activated, multiplied and biased result is not negative, minus one: the bit is set iff x' exceeds it.
int threshold(int a, int lo, int hi, float mult, float bias) {
  int n = 0;
  for (int x = 0; x <= a; ++x) {
    int dot = mult < 0 ? 2 * x - a : a - 2 * x;
    int act = dot < lo ? lo : dot > hi ? hi : dot;
    if (act * mult + bias >= 0) ++n;
  }
  return n - 1;
}
DenseElementsAttr thresholds(Builder& builder, TypedAttr filter_attr, Attribute mult_attr, Attribute bias_attr, Attribute act_attr) {
  auto shape = filter_attr.getType().cast<ShapedType>().getShape();
  llvm::StringRef act = act_attr.cast<StringAttr>().getValue();
  const int a = shape[1] * shape[2] * shape[3];
  int lo = -a, hi = a;
  if (act == "RELU") lo = 0;
  if (act == "RELU6") { lo = 0; hi = 6; }
  if (act == "RELU_N1_TO_1") { lo = -1; hi = 1; }
  std::vector<Attribute> out;
  for (auto p : llvm::zip(mult_attr.cast<DenseElementsAttr>().getValues<float>(), bias_attr.cast<DenseElementsAttr>().getValues<float>()))
    out.push_back(IntegerAttr::get(builder.getIntegerType(32), threshold(a, lo, hi, std::get<0>(p), std::get<1>(p))));
  return DenseElementsAttr::get(RankedTensorType::get({(std::int32_t)out.size()}, builder.getIntegerType(32)), out);
}
DenseElementsAttr signs(TypedAttr v) {
  auto vec = v.cast<DenseElementsAttr>();
  auto t = v.getType().cast<ShapedType>();
  const auto n = t.getShape()[0];
  std::vector<Attribute> out(n);
  for (std::size_t i = 0; i < n; ++i) out[i] = FloatAttr::get(t.getElementType(), vec.getValues<float>()[i] < 0.0f ? -1.0f : 1.0f);
  return DenseElementsAttr::get(RankedTensorType::get({n, 1, 1, 1}, t.getElementType()), out);
}
}  // namespace spec
