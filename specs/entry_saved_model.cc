#include "larq_compute_engine/mlir/python/saved_model_tfl_flatbuffer.cc"
namespace spec {
using namespace tensorflow;
inline pybind11::bytes Convert(const std::string& saved_model_dir, const std::vector<std::string>& saved_model_tags, const std::vector<std::string>& exported_names, const int saved_model_version,
                               const std::string& target_str, const pybind11::object& default_ranges) {
  mlir::MLIRContext context;
  LCETarget target = GetLCETarget(target_str);
  if (exported_names.empty()) throw std::runtime_error("names");
  GraphImportConfig specs;
  specs.upgrade_legacy = true;
  absl::Span<const std::string> custom_opdefs;
  const toco::TocoFlags toco_flags;
  if (!internal::RegisterAllCustomOps(toco_flags).ok()) throw std::runtime_error("ops");
  auto names = std::vector<std::string>(exported_names.begin(), exported_names.end());
  absl::Span<std::string> names_span(names);
  std::unordered_set<std::string> tags(saved_model_tags.begin(), saved_model_tags.end());
  auto bundle = std::make_unique<SavedModelBundle>();
  auto module = ImportSavedModel(saved_model_dir, saved_model_version, tags, custom_opdefs, names_span, specs, true, &context, &bundle);
  if (!module.ok()) throw std::runtime_error("import");
  int num_inputs = 0;
  if (!GetNumInputs(&module.value(), &num_inputs).ok()) throw std::runtime_error("inputs");
  return ConvertMLIRModuleToTFLiteFlatBuffer(&module.value(), context, target, default_ranges, tags, saved_model_dir, bundle ? bundle->GetSession() : nullptr, num_inputs, true, true);
}
}  // namespace spec
