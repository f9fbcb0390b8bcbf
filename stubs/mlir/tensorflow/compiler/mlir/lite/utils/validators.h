#pragma once
#include "verif_ops.h"
namespace mlir { namespace TFL { bool TFIntListIs1XY1(::mlir::Attribute); bool TFIntListIsXY(::mlir::Attribute); }}
