#pragma once
#include "pass_stub.h"
#include "tensorflow/compiler/mlir/lite/quantization/quantization_config.h"
namespace mlir { namespace TFL {
VERIF_PASS(CreatePrepareQuantizePass) VERIF_PASS(CreateDefaultQuantParamsPass) VERIF_PASS(CreateQuantizePass) VERIF_PASS(CreatePostQuantizePass) VERIF_PASS(CreateOptimizeOpOrderPass) VERIF_PASS(CreateOptimizePass) VERIF_PASS(CreateRaiseCustomOpsPass)
VERIF_MPASS(CreatePrepareCompositeFunctionsPass) VERIF_MPASS(CreateLowerStaticTensorListPass) VERIF_MPASS(CreateLegalizeTFWhilePass) VERIF_PASS(CreateReduceWhileOperandsPass) VERIF_PASS(CreatePrepareTFPass) VERIF_PASS(CreateLegalizeTFPass)
VERIF_MPASS(CreateAnalyzeVariablesPass) VERIF_MPASS(CreateLegalizeVariablesPass) VERIF_MPASS(CreateLegalizeHashTablesPass) VERIF_MPASS(CreateOptimizeFunctionalOpsPass) VERIF_PASS(CreatePostQuantizeRemoveQDQPass) VERIF_PASS(CreateSplitMergedOperandsPass)
VERIF_MPASS(CreateInsertCallOnceOpFromSessionInitializerPass) VERIF_MPASS(CreateUnfoldLargeSplatConstantPass) VERIF_MPASS(CreateWhileOutlinePass) VERIF_PASS(CreateRuntimeVerifyPass) VERIF_PASS(CreateModifyIONodesPass)
} }
