#pragma once
#include <string>
#include <unordered_set>
#include "mlir/IR/BuiltinOps.h"
namespace toco { class TocoFlags { public: void set_force_select_tf_ops(bool); void set_allow_custom_ops(bool); void set_enable_select_tf_ops(bool); }; }
namespace tensorflow { using OpOrVal = llvm::PointerUnion<mlir::Operation*, mlir::Value>; class OpOrArgNameMapper { public: virtual ~OpOrArgNameMapper(); protected: virtual std::string GetName(OpOrVal op_or_val) = 0; };
class OpOrArgLocNameMapper : public OpOrArgNameMapper { protected: std::string GetName(OpOrVal op_or_val) override; }; class OpOrArgLocNameMapper; }
namespace tflite { struct FlatbufferExportOptions { toco::TocoFlags toco_flags; std::unordered_set<std::string> saved_model_tags; tensorflow::OpOrArgNameMapper* op_or_arg_name_mapper = nullptr; };
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp module, const FlatbufferExportOptions& options, std::string* serialized_flatbuffer, bool serialize_stablehlo_ops = false); }
