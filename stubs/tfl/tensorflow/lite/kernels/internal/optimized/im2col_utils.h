#pragma once
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite { namespace optimized_ops {
template <typename T> void DilatedIm2col(const ConvParams& params, uint8_t zero_byte, const RuntimeShape& input_shape, const T* input_data, const RuntimeShape& filter_shape, const RuntimeShape& output_shape, T* im2col_data);
template <typename T> void Im2col(const ConvParams& params, int kheight, int kwidth, uint8_t zero_byte, const RuntimeShape& input_shape, const T* input_data, const RuntimeShape& output_shape, T* output_data);
} }
