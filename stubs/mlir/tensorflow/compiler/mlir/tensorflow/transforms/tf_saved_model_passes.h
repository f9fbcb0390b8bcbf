#pragma once
#include "pass_stub.h"
namespace mlir { namespace tf_saved_model { VERIF_MPASS(CreateOptimizeGlobalTensorsPass) VERIF_MPASS(CreateFreezeGlobalTensorsPass) VERIF_MPASS(CreateFreezeAssetsPass) } }
