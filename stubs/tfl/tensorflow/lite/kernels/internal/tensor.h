#pragma once
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/types.h"
