#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
namespace spec {
using namespace mlir;
bool filter(Attribute a) {
  if (!a.isa<DenseElementsAttr>()) return false;
  auto t = a.cast<TypedAttr>().getType().cast<ShapedType>();
  if (t.getShape().size() != 4) return false;
  return t.getElementType().isF32();
}
}  // namespace spec
