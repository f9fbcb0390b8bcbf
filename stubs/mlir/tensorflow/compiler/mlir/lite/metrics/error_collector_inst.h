#pragma once
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/PassInstrumentation.h"
#include "mlir/Pass/PassManager.h"
namespace tflite { namespace metrics { struct ConverterErrorData { enum ErrorCode { UNKNOWN = 0, ERROR_UNSUPPORTED_CONTROL_FLOW_V1 = 1 }; }; } }
namespace mlir { namespace TFL { class ErrorCollectorInstrumentation : public PassInstrumentation { public: explicit ErrorCollectorInstrumentation(MLIRContext*); };
inline InFlightDiagnostic AttachErrorCode(InFlightDiagnostic&& diag, tflite::metrics::ConverterErrorData::ErrorCode c); } }
