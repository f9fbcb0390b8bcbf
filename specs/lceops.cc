#include "larq_compute_engine/mlir/ir/lce_ops.cc"
namespace spec {
using namespace mlir;
OpFoldResult quantize_fold(lq::QuantizeOp op, lq::QuantizeOp::FoldAdaptor adaptor) {
  Attribute x = adaptor.getOperands()[0];
  if (!x) return nullptr;
  OpBuilder b(op.getOperation());
  return TFL::Bitpack(&b, x);
}
OpFoldResult dequantize_fold(lq::DequantizeOp op, lq::DequantizeOp::FoldAdaptor adaptor) {
  Attribute x = adaptor.getOperands()[0];
  if (!x) return nullptr;
  return TFL::Unpack(x, op.getType().cast<ShapedType>());
}
void build(OpBuilder& builder, OperationState& state, Value x) {
  auto shape = x.getType().cast<ShapedType>().getShape();
  state.addOperands(x);
  const int n = shape.size() - 1;
  std::vector<int64_t> out(n);
  for (int i = 0; i < n; ++i) out[i] = shape[i];
  out.push_back((shape[n] + 31) / 32);
  state.addTypes(RankedTensorType::get(out, builder.getIntegerType(32)));
}
Operation* materialize(OpBuilder& builder, Attribute value, Type type, Location loc) {
  if (!arith::ConstantOp::isBuildableWith(value, type)) return nullptr;
  return builder.create<arith::ConstantOp>(loc, type, value.cast<TypedAttr>());
}
}  // namespace spec
