#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <vector>
#include <type_traits>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
enum class FusedActivationFunctionType : uint8_t { kNone, kRelu6, kRelu1, kRelu };
enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues { int16_t width; int16_t height; int16_t width_offset; int16_t height_offset; };
struct ConvParams { PaddingType padding_type; PaddingValues padding_values; int16_t stride_width; int16_t stride_height;
  int16_t dilation_width_factor; int16_t dilation_height_factor; int32_t input_offset; int32_t weights_offset; int32_t output_offset;
  int32_t output_multiplier; int output_shift; int32_t quantized_activation_min; int32_t quantized_activation_max;
  float float_activation_min; float float_activation_max; };
class RuntimeShape { public:
  std::vector<int32_t> d_;
  RuntimeShape() {}
  explicit RuntimeShape(int n) : d_(n) {}
  RuntimeShape(int n, int32_t value) : d_(n, value) {}
  RuntimeShape(int n, const int32_t* p) : d_(p, p + n) {}
  RuntimeShape(const std::initializer_list<int> l) : d_(l.begin(), l.end()) {}
  bool operator==(const RuntimeShape& c) const { return d_ == c.d_; } bool operator!=(const RuntimeShape& c) const { return d_ != c.d_; }
  int32_t DimensionsCount() const { return d_.size(); } int32_t Dims(int i) const { return d_.at(i); } void SetDim(int i, int32_t v) { d_.at(i) = v; }
  int32_t* DimsData() { return d_.data(); } const int32_t* DimsData() const { return d_.data(); } void Resize(int n) { d_.resize(n); }
  void ReplaceWith(int n, const int32_t* p) { d_.assign(p, p + n); }
  int FlatSize() const { int r = 1; for (int x : d_) r *= x; return r; } };
inline int MatchingDim(const RuntimeShape& shape1, int index1, const RuntimeShape& shape2, int index2) { return shape1.Dims(index1); }
template <typename... Args> int MatchingDim(const RuntimeShape& shape1, int index1, const RuntimeShape& shape2, int index2, Args... args) { return shape1.Dims(index1); }
inline int FlatSizeSkipDim(const RuntimeShape& s, int k) { int r = 1; for (int i = 0; i < s.DimensionsCount(); ++i) if (i != k) r *= s.Dims(i); return r; }
inline int MatchingFlatSize(const RuntimeShape& shape, const RuntimeShape& check_shape_0) { return shape.FlatSize(); }
inline int Offset(const RuntimeShape& shape, int i0, int i1, int i2, int i3) { return ((i0 * shape.Dims(1) + i1) * shape.Dims(2) + i2) * shape.Dims(3) + i3; }
int Offset(const RuntimeShape& shape, int* index);
}
