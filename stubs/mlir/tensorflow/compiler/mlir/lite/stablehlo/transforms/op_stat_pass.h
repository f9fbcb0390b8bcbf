#pragma once
#include "pass_stub.h"
namespace mlir { namespace odml { VERIF_MPASS(createPrintOpStatsPass) } }
