#pragma once
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace tensorflow { enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_INT32 = 3, DT_UINT8 = 4, DT_INT16 = 5, DT_INT8 = 6, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT16 = 15 }; }
namespace mlir { namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic };
struct QuantizationSpecs { tensorflow::DataType inference_type = tensorflow::DT_FLOAT; tensorflow::DataType inference_input_type = tensorflow::DT_FLOAT; bool weight_quantization = false; bool post_training_quantization = false;
 bool disable_per_channel = false; bool disable_set_input_nodes_quantization_params = false; bool legacy_float_scale = false; bool verify_numeric = false; bool whole_model_verify = false; bool enable_mlir_dynamic_range_quantizer = false; bool unidirectional = false;
 std::string target_func = "main"; std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges; std::pair<std::optional<double>, std::optional<double>> default_ranges;
 std::string serialized_quant_stats = ""; QDQConversionMode qdq_conversion_mode{QDQConversionMode::kQDQNone};
 bool RunPropagationAndRewriteQuantizationPasses() const; bool RunAndRewriteDynamicRangeQuantizationPasses() const; bool IsSignedInferenceType() const; int64_t GetQuantizationTypeWidth() const; };
} }
