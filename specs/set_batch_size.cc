#include "larq_compute_engine/mlir/transforms/set_batch_size.cc"
namespace spec {
mlir::Type newType(mlir::Type t) {
  auto tt = t.dyn_cast<mlir::TensorType>();
  if (!tt || !tt.hasRank()) return t;
  llvm::ArrayRef<int64_t> s = tt.getShape();
  if (s.size() == 0) return t;
  if (s[0] != mlir::ShapedType::kDynamic) return t;
  llvm::SmallVector<int64_t, 4> n(s.begin(), s.end());
  n[0] = 1;
  return tt.clone(n);
}
struct Pass : public mlir::PassWrapper<Pass, mlir::OperationPass<mlir::func::FuncOp>> {
  llvm::StringRef getArgument() const final { return ""; }
  void runOnOperation() override {
    mlir::func::FuncOp func = getOperation();
    mlir::FunctionType sig = func.getFunctionType();
    std::vector<mlir::Type> in(sig.getInputs());
    for (size_t i = 0; i < in.size(); ++i) in[i] = newType(in[i]);
    func.setType(mlir::FunctionType::get(sig.getContext(), in, sig.getResults()));
    for (mlir::BlockArgument arg : func.getArguments()) arg.setType(newType(arg.getType()));
  }
};
}  // namespace spec
