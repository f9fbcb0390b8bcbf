#pragma once
#include <cstdint>
#include <algorithm>
#include <limits>
#include "tensorflow/lite/kernels/internal/types.h"
#include "tensorflow/lite/kernels/internal/cppmath.h"
