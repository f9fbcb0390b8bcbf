#include "larq_compute_engine/mlir/python/graphdef_tfl_flatbuffer.cc"
namespace spec {
using namespace tensorflow;
inline pybind11::bytes Convert(const pybind11::bytes& graphdef_bytes, const std::vector<std::string>& input_arrays, const std::vector<std::string>& input_dtypes,
                               const std::vector<std::vector<int>>& input_shapes, const std::vector<std::string>& output_arrays, const bool should_quantize, const std::string& target_str,
                               const pybind11::object& default_ranges) {
  GraphDef graphdef;
  if (!LoadProtoFromBuffer(std::string(graphdef_bytes), &graphdef).ok()) throw std::runtime_error("load");
  LCETarget target = GetLCETarget(target_str);
  std::vector<std::optional<std::vector<int>>> shapes;
  for (auto x : input_shapes) {
    if (x.size() > 0) {
      shapes.push_back(x);
    } else {
      shapes.push_back(std::nullopt);
    }
  }
  GraphImportConfig specs;
  specs.prune_unused_nodes = true;
  specs.convert_legacy_fed_inputs = true;
  specs.graph_as_function = false;
  specs.upgrade_legacy = true;
  if (!ParseInputArrayInfo(input_arrays, input_dtypes, shapes, &specs.inputs).ok()) throw std::runtime_error("inputs");
  if (!ParseOutputArrayInfo(output_arrays, &specs.outputs).ok()) throw std::runtime_error("outputs");
  mlir::MLIRContext context;
  GraphDebugInfo debug_info;
  auto module = ConvertGraphdefToMlir(graphdef, debug_info, specs, &context);
  if (!module.ok()) throw std::runtime_error("import");
  return ConvertMLIRModuleToTFLiteFlatBuffer(&module.value(), context, target, default_ranges, {}, "", std::nullopt, input_arrays.size(), should_quantize, false);
}
}  // namespace spec
