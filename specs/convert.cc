#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc"
// Reference conversion driver: which step runs when, and what a failing step returns.
namespace spec {
inline absl::Status Convert(mlir::ModuleOp module, bool export_to_mlir, const LCETarget target, mlir::quant::QuantizationSpecs quant_specs, const std::unordered_set<std::string>& tags,
                            llvm::StringRef dir, std::optional<tensorflow::Session*> session, std::string* result) {
  mlir::StatusScopedDiagnosticHandler handler(module.getContext(), true);
  mlir::PassManager pm(module.getContext());
  if (mlir::failed(mlir::applyPassManagerCLOptions(pm))) return absl::InternalError("options");
  if (mlir::failed(tensorflow::IsValidGraph(module))) return handler.ConsumeStatus();
  tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pm);
  if (mlir::failed(pm.run(module))) return handler.ConsumeStatus();
  if (session.has_value()) {
    if (mlir::failed(mlir::tf_saved_model::FreezeVariables(module, *session))) return handler.Combine(absl::InvalidArgumentError("variables"));
  }
  pm.clear();
  tensorflow::AddPostVariableFreezingTFToLCETFLConversionPasses(dir, quant_specs, &pm, target);
  if (mlir::failed(pm.run(module))) return handler.Combine(absl::InvalidArgumentError("passes"));
  if (export_to_mlir) {
    pm.clear();
    pm.addPass(mlir::odml::createPrintOpStatsPass(mlir::odml::GetAcceptedTFLiteDialects()));
    if (mlir::failed(pm.run(module))) return handler.ConsumeStatus();
    llvm::raw_string_ostream os(*result);
    module.print(os);
    return handler.ConsumeStatus();
  }
  tensorflow::TruncateOpOrArgLocNameMapper op_or_arg_name_mapper;
  toco::TocoFlags flags;
  flags.set_force_select_tf_ops(false);
  flags.set_allow_custom_ops(true);
  tflite::FlatbufferExportOptions options;
  options.toco_flags = flags;
  options.saved_model_tags = tags;
  options.op_or_arg_name_mapper = &op_or_arg_name_mapper;
  if (!tflite::MlirToFlatBufferTranslateFunction(module, options, result, false)) return handler.Combine(absl::InternalError("export"));
  if (mlir::failed(module.verifyInvariants())) return handler.Combine(absl::InternalError("invalid"));
  return absl::OkStatus();
}
}  // namespace spec
