#pragma once
#include "ruy/matrix.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"
#include "tensorflow/lite/kernels/cpu_backend_gemm_params.h"
namespace tflite { namespace cpu_backend_gemm { namespace detail {
template <typename Scalar, typename DataPointer> void MakeRuyMatrix(const MatrixParams<Scalar>& params, DataPointer data_ptr, ruy::Matrix<Scalar>* dst, bool use_caching = false);
} } }
