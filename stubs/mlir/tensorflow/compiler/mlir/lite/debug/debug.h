#pragma once
#include "mlir/Pass/PassManager.h"
namespace converter { class DebugOptions {}; }
namespace tensorflow { void InitPassManager(mlir::PassManager& pm, const converter::DebugOptions& options); }
