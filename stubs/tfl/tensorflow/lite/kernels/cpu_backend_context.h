#pragma once
#include "tensorflow/lite/c/common.h"
#include "ruy/context.h"
namespace tflite {
class CpuBackendContext { public: static CpuBackendContext* GetFromContext(TfLiteContext* context);
  CpuBackendContext(); ruy::Context* ruy_context() const; void SetMaxNumThreads(int n); int max_num_threads() const; void SetUseCaching(bool f); bool use_caching() const; void ClearCaches(); };
}
