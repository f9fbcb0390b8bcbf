#pragma once
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/op_resolver.h"
namespace tflite {
class Profiler;
class Interpreter { public:
  TfLiteStatus AllocateTensors(); TfLiteStatus Invoke(); TfLiteStatus SetNumThreads(int n); TfLiteStatus ResetVariableTensors();
  const std::vector<int>& inputs() const; const std::vector<int>& outputs() const;
  const char* GetInputName(int i) const; const char* GetOutputName(int i) const;
  TfLiteTensor* tensor(int i) const; TfLiteTensor* input_tensor(size_t i) const;
  TfLiteTensor* output_tensor(size_t i) const;
  template <class T> T* typed_input_tensor(int i); template <class T> T* typed_output_tensor(int i); template <class T> T* typed_tensor(int i);
  TfLiteStatus ResizeInputTensor(int i, const std::vector<int>& dims); size_t tensors_size() const; size_t nodes_size() const; };
namespace impl { using Interpreter = ::tflite::Interpreter; class InterpreterBuilder; }
}
