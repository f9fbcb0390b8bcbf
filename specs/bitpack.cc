#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
namespace spec {
using compute_engine::core::TBitpacked;
inline int words(int n) { return (n + 31) / 32; }
// bit c%32 of word c/32 of a row is set iff element c of the row lies below the zero point; padding bits are clear
template <class T> inline void pack(const T* in, int rows, int cols, std::int32_t zp, TBitpacked* out) {
  for (int r = 0; r < rows; ++r)
    for (int k = 0; k < words(cols); ++k) {
      const int n = std::min(32, cols - k * 32);
      TBitpacked word = 0;
      for (int c = 0; c < n; ++c)
        if (in[r * cols + k * 32 + c] < zp) word |= TBitpacked(1) << c;
      out[r * words(cols) + k] = word;
    }
}
void matrix_float(const float* in, int rows, int cols, TBitpacked* out) { pack<float>(in, rows, cols, 0, out); }
void matrix_int8(const std::int8_t* in, int rows, int cols, TBitpacked* out, std::int32_t zp) { pack<std::int8_t>(in, rows, cols, zp, out); }
void matrix_uint8(const std::uint8_t* in, int rows, int cols, TBitpacked* out, std::int32_t zp) { pack<std::uint8_t>(in, rows, cols, zp, out); }
inline int rows(const RuntimeShape& s) {
  int n = 1;
  for (int i = 0; i < s.DimensionsCount() - 1; ++i) n *= s.Dims(i);
  return n;
}
void tensor_float(const RuntimeShape& s, const float* in, std::int32_t zp, TBitpacked* out) { pack<float>(in, rows(s), s.Dims(s.DimensionsCount() - 1), 0, out); }
void tensor_int8(const RuntimeShape& s, const std::int8_t* in, std::int32_t zp, TBitpacked* out) { pack<std::int8_t>(in, rows(s), s.Dims(s.DimensionsCount() - 1), zp, out); }
void tensor_uint8(const RuntimeShape& s, const std::uint8_t* in, std::int32_t zp, TBitpacked* out) { pack<std::uint8_t>(in, rows(s), s.Dims(s.DimensionsCount() - 1), zp, out); }
template <class T> inline void unpack(const TBitpacked* in, int rows, int cols, T* out, T zero, T one) {
  for (int r = 0; r < rows; ++r)
    for (int c = 0; c < cols; ++c) out[r * cols + c] = (in[r * words(cols) + c / 32] >> (c % 32)) & 1 ? one : zero;
}
void unpack_float(const TBitpacked* in, int rows, int cols, float* out, float zero, float one) { unpack<float>(in, rows, cols, out, zero, one); }
void unpack_int8(const TBitpacked* in, int rows, int cols, std::int8_t* out, std::int8_t zero, std::int8_t one) { unpack<std::int8_t>(in, rows, cols, out, zero, one); }
void unpack_bool(const TBitpacked* in, int rows, int cols, bool* out, bool zero, bool one) { unpack<bool>(in, rows, cols, out, zero, one); }
int packed_size(int n) { return words(n); }
int packed_matrix_size(int rows, int cols) { return rows * words(cols); }
int packed_tensor_size(const RuntimeShape& s) { return rows(s) * words(s.Dims(s.DimensionsCount() - 1)); }
int packed_dim(const RuntimeShape& s, int i) { return i == s.DimensionsCount() - 1 ? words(s.Dims(i)) : s.Dims(i); }
int packed_rank(const RuntimeShape& s) { return s.DimensionsCount(); }
// entry points of the code under analysis
using namespace compute_engine::core::bitpacking;
void code_matrix_float(const float* in, int rows, int cols, TBitpacked* out) { bitpack_matrix(in, rows, cols, out); }
void code_matrix_int8(const std::int8_t* in, int rows, int cols, TBitpacked* out, std::int32_t zp) { bitpack_matrix(in, rows, cols, out, zp); }
void code_matrix_uint8(const std::uint8_t* in, int rows, int cols, TBitpacked* out, std::int32_t zp) { bitpack_matrix(in, rows, cols, out, zp); }
void code_tensor_float(const RuntimeShape& s, const float* in, std::int32_t zp, TBitpacked* out) { bitpack_tensor(s, in, 0, out); }
void code_tensor_int8(const RuntimeShape& s, const std::int8_t* in, std::int32_t zp, TBitpacked* out) { bitpack_tensor(s, in, zp, out); }
void code_tensor_uint8(const RuntimeShape& s, const std::uint8_t* in, std::int32_t zp, TBitpacked* out) { bitpack_tensor(s, in, zp, out); }
void code_unpack_float(const TBitpacked* in, int rows, int cols, float* out, float zero, float one) { unpack_matrix(in, rows, cols, out, zero, one); }
void code_unpack_int8(const TBitpacked* in, int rows, int cols, std::int8_t* out, std::int8_t zero, std::int8_t one) { unpack_matrix(in, rows, cols, out, zero, one); }
void code_unpack_bool(const TBitpacked* in, int rows, int cols, bool* out, bool zero, bool one) { unpack_matrix(in, rows, cols, out, zero, one); }
int code_packed_size(int n) { return GetBitpackedSize(n); }
int code_packed_matrix_size(int rows, int cols) { return GetBitpackedMatrixSize(rows, cols); }
int code_packed_tensor_size(const RuntimeShape& s) { return GetBitpackedTensorSize(s); }
int code_packed_dim(const RuntimeShape& s, int i) { return bitpacked_shape(s).Dims(i); }
int code_packed_rank(const RuntimeShape& s) { return bitpacked_shape(s).DimensionsCount(); }
// default values of the unpacked bits
void code_unpack_default(const TBitpacked* in, int rows, int cols, float* out) { unpack_matrix(in, rows, cols, out); }
void unpack_default(const TBitpacked* in, int rows, int cols, float* out) { unpack<float>(in, rows, cols, out, 1.0f, -1.0f); }
}  // namespace spec
