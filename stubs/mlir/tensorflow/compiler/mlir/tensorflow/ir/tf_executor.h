#pragma once
#include "verif_ops.h"
namespace mlir { namespace tf_executor {
#define VERIF_TFE(name) class name : public Op<name> { public: using Op::Op; static StringRef getOperationName(); static ArrayRef<StringRef> getAttributeNames(); };
VERIF_TFE(SwitchOp) VERIF_TFE(SwitchNOp) VERIF_TFE(MergeOp) VERIF_TFE(EnterOp) VERIF_TFE(ExitOp) VERIF_TFE(NextIterationSinkOp) VERIF_TFE(NextIterationSourceOp) VERIF_TFE(LoopCondOp)
} }
