#pragma once
#include <cstdint>
#include <cstdlib>
#include "tensorflow/lite/kernels/op_macros.h"
#ifndef TFLITE_DCHECK
#define TFLITE_DCHECK(condition) (condition) ? (void)0 : ((void)0)
#endif
#define TFLITE_DCHECK_EQ(x, y) TFLITE_DCHECK((x) == (y))
#define TFLITE_DCHECK_NE(x, y) TFLITE_DCHECK((x) != (y))
#define TFLITE_DCHECK_GE(x, y) TFLITE_DCHECK((x) >= (y))
#define TFLITE_DCHECK_GT(x, y) TFLITE_DCHECK((x) > (y))
#define TFLITE_DCHECK_LE(x, y) TFLITE_DCHECK((x) <= (y))
#define TFLITE_DCHECK_LT(x, y) TFLITE_DCHECK((x) < (y))
#define TFLITE_CHECK(condition) (condition) ? (void)0 : TFLITE_ABORT
#define TFLITE_CHECK_EQ(x, y) TFLITE_CHECK((x) == (y))
#define TFLITE_CHECK_LE(x, y) TFLITE_CHECK((x) <= (y))
#define TFLITE_CHECK_LT(x, y) TFLITE_CHECK((x) < (y))
#define TFLITE_CHECK_GE(x, y) TFLITE_CHECK((x) >= (y))
#define TFLITE_CHECK_GT(x, y) TFLITE_CHECK((x) > (y))
#define TFLITE_CHECK_NE(x, y) TFLITE_CHECK((x) != (y))
