#pragma once
#include <stdio.h>
#include <stdlib.h>
#include "tensorflow/lite/c/common.h"
#define TF_LITE_FATAL(msg) do { fprintf(stderr, "%s\n", (msg)); abort(); } while (0)
#define TFLITE_ABORT abort()
#define TFLITE_ASSERT_FALSE (void)0
#define TF_LITE_ASSERT(x) do { if (!(x)) TF_LITE_FATAL(#x); } while (0)
#define TF_LITE_ASSERT_EQ(x, y) do { if ((x) != (y)) TF_LITE_FATAL(#x " didn't equal " #y); } while (0)
