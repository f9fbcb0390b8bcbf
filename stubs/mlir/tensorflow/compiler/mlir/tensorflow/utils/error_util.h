#pragma once
#include "absl/status/status.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
namespace mlir { class StatusScopedDiagnosticHandler { public: StatusScopedDiagnosticHandler(MLIRContext* context, bool propagate = false, bool filter_stack = false); absl::Status ConsumeStatus(); absl::Status Combine(absl::Status status); }; }
