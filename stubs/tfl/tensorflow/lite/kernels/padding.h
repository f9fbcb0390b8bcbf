#pragma once
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
int ComputePadding(int stride, int dilation_rate, int in_size, int filter_size, int out_size);
int ComputePaddingWithOffset(int stride, int dilation_rate, int in_size, int filter_size, int out_size, int* offset);
int ComputeOutSize(TfLitePadding padding, int image_size, int filter_size, int stride, int dilation_rate = 1);
TfLitePaddingValues ComputePaddingHeightWidth(int stride_height, int stride_width, int dilation_rate_height, int dilation_rate_width,
    int in_height, int in_width, int filter_height, int filter_width, TfLitePadding padding, int* out_height, int* out_width);
}
