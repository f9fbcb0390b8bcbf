#pragma once
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>
#include "absl/types/span.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/OwningOpRef.h"
#include "tensorflow/core/platform/status.h"
#include "tensorflow/core/public/session.h"
namespace tensorflow {
class GraphDef {}; class GraphDebugInfo {}; struct ArrayInfo {}; 
class SavedModelBundle { public: Session* GetSession() const; };
struct GraphImportConfig { std::map<std::string, ArrayInfo> inputs; std::vector<std::string> outputs; bool prune_unused_nodes = false; bool convert_legacy_fed_inputs = false; bool graph_as_function = false; bool upgrade_legacy = false; bool enable_shape_inference = true; };
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef&, const GraphDebugInfo&, const GraphImportConfig&, mlir::MLIRContext*);
Status ParseInputArrayInfo(const std::vector<std::string>&, const std::vector<std::string>&, const std::vector<std::optional<std::vector<int>>>&, std::map<std::string, ArrayInfo>*);
Status ParseOutputArrayInfo(const std::vector<std::string>&, std::vector<std::string>*);
Status LoadProtoFromBuffer(const std::string&, GraphDef*);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> custom_opdefs, absl::Span<std::string> exported_names, const GraphImportConfig& specs, bool enable_variable_lifting, mlir::MLIRContext* context, std::unique_ptr<SavedModelBundle>* bundle);
}
