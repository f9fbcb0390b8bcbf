#pragma once
#include "tensorflow/compiler/mlir/lite/quantization/quantization_config.h"
