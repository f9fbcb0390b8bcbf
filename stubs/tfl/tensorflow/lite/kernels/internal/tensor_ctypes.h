#pragma once
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
template <typename T> T* GetTensorData(TfLiteTensor* tensor);
template <typename T> const T* GetTensorData(const TfLiteTensor* tensor);
inline RuntimeShape GetTensorShape(const TfLiteTensor* tensor) { if (tensor == nullptr) return RuntimeShape(); return RuntimeShape(tensor->dims->size, tensor->dims->data); }
RuntimeShape GetTensorShape(std::vector<int32_t> data);
}
