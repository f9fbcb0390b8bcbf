#include "larq_compute_engine/mlir/python/common.cc"
namespace spec {
inline LCETarget Target(const std::string& s) {
  if (s == "xcore") return LCETarget::XCORE;
  if (s == "arm") return LCETarget::ARM;
  throw std::runtime_error("target");
}

inline tensorflow::Status NumInputs(mlir::OwningOpRef<mlir::ModuleOp>* module, int* num_inputs) {
  *num_inputs = 0;
  mlir::func::FuncOp entry = nullptr;
  for (auto func : module->get().getOps<mlir::func::FuncOp>()) {
    if (func->getAttrOfType<mlir::DictionaryAttr>("tf.entry_function")) {
      if (entry != nullptr) return tensorflow::errors::InvalidArgument("several");
      entry = func;
    }
  }
  if (entry == nullptr) return tensorflow::errors::InvalidArgument("none");
  auto inputs = entry->getAttrOfType<mlir::DictionaryAttr>("tf.entry_function").get("inputs");
  if (!inputs) return tensorflow::errors::InvalidArgument("no inputs");
  llvm::SmallVector<llvm::StringRef, 4> names;
  inputs.cast<mlir::StringAttr>().getValue().split(names, ",");
  *num_inputs = names.size();
  return tensorflow::OkStatus();
}

inline pybind11::bytes Convert(mlir::OwningOpRef<mlir::ModuleOp>* module, mlir::MLIRContext& context, const LCETarget target, const pybind11::object& default_ranges,
                               const std::unordered_set<std::string>& tags, llvm::StringRef dir, std::optional<tensorflow::Session*> session, const int num_inputs, const bool should_quantize,
                               const bool post_training) {
  mlir::quant::QuantizationSpecs quant_specs;
  if (should_quantize) {
    quant_specs.inference_type = tensorflow::DT_QINT8;
    for (int i = 0; i < num_inputs; ++i) quant_specs.input_ranges.push_back({std::nullopt, std::nullopt});
    if (!default_ranges.is_none()) {
      quant_specs.post_training_quantization = post_training;
      quant_specs.default_ranges = default_ranges.cast<std::pair<double, double>>();
    }
  }
  std::string result;
  auto status = tensorflow::ConvertTFExecutorToTFLOrFlatbuffer(module->get(), false, target, quant_specs, tags, dir, session, &result);
  if (!status.ok()) throw std::runtime_error("conversion");
  return pybind11::bytes(result);
}
}  // namespace spec
