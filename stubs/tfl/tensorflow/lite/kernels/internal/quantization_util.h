#pragma once
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite { void QuantizeMultiplier(double double_multiplier, int32_t* quantized_multiplier, int* shift); }
