#include "larq_compute_engine/mlir/transforms/detection_postprocess.cc"
namespace spec {
using namespace mlir;
LogicalResult rewrite(TFL::CustomOp op, PatternRewriter& r) {
  if (op.getCustomCode() != "TFLite_Detection_PostProcess") return failure();
  auto in = op.getInput();
  if (in.size() != 3) return failure();
  auto out = op.getOutput();
  if (out.size() != 4) return failure();
  Value x[3];
  for (int i = 0; i < 3; ++i) {
    auto d = llvm::dyn_cast_or_null<TFL::DequantizeOp>(in[i].getDefiningOp());
    if (!d) return failure();
    x[i] = d.getInput();
  }
  // boxes, classes, scores, number of detections
  Type type[4] = {r.getIntegerType(32), r.getIntegerType(32), r.getF32Type(), r.getIntegerType(32)};
  for (int i = 0; i < 4; ++i)
    if (out[i].getType().cast<ShapedType>().getElementType() != type[i]) return failure();
  auto q = x[1].getType().cast<ShapedType>().getElementType().cast<quant::UniformQuantizedType>();
  type[2] = quant::UniformQuantizedType::get(true, r.getIntegerType(8), r.getF32Type(), q.getScale(), q.getZeroPoint(), -128, 127);
  SmallVector<Type, 4> types;
  for (int i = 0; i < 4; ++i) types.push_back(RankedTensorType::get(out[i].getType().cast<ShapedType>().getShape(), type[i]));
  SmallVector<Value, 3> inputs{x[0], x[1], x[2]};
  auto n = r.create<TFL::CustomOp>(op->getLoc(), types, inputs, std::string{"TFLite_Detection_PostProcess"}, op.getCustomOption());
  auto scores = r.create<TFL::DequantizeOp>(op->getLoc(), out[2].getType(), n.getOutput()[2]);
  SmallVector<Value, 4> outputs{n.getOutput()[0], n.getOutput()[1], scores.getOutput(), n.getOutput()[3]};
  r.replaceOp(op, outputs);
  return success();
}
}  // namespace spec
