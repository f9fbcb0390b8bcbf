#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <type_traits>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
enum class FusedActivationFunctionType : uint8_t { kNone, kRelu6, kRelu1, kRelu };
enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues { int16_t width; int16_t height; int16_t width_offset; int16_t height_offset; };
struct ConvParams { PaddingType padding_type; PaddingValues padding_values; int16_t stride_width; int16_t stride_height;
  int16_t dilation_width_factor; int16_t dilation_height_factor; int32_t input_offset; int32_t weights_offset; int32_t output_offset;
  int32_t output_multiplier; int output_shift; int32_t quantized_activation_min; int32_t quantized_activation_max;
  float float_activation_min; float float_activation_max; };
class RuntimeShape { public:
  int32_t n_; int32_t* p_;
  RuntimeShape() : n_(0), p_(nullptr) {}
  explicit RuntimeShape(int dimensions_count) : n_(dimensions_count), p_(new int32_t[dimensions_count]) {}
  RuntimeShape(int shape_size, int32_t value) : n_(shape_size), p_(new int32_t[shape_size]) { for (int i = 0; i < shape_size; ++i) p_[i] = value; }
  RuntimeShape(int dimensions_count, const int32_t* dims_data) : n_(dimensions_count), p_(const_cast<int32_t*>(dims_data)) {}
  RuntimeShape(const std::initializer_list<int> init_list) : n_(init_list.size()), p_(const_cast<int32_t*>(init_list.begin())) {}
  RuntimeShape(RuntimeShape const& other) : n_(other.n_), p_(new int32_t[other.n_]) { for (int i = 0; i < other.n_; ++i) p_[i] = other.p_[i]; } RuntimeShape& operator=(RuntimeShape const&); ~RuntimeShape();
  bool operator==(const RuntimeShape& comp) const; bool operator!=(const RuntimeShape& comp) const;
  int32_t DimensionsCount() const { return n_; } int32_t Dims(int i) const { return p_[i]; } void SetDim(int i, int32_t val) { p_[i] = val; }
  int32_t* DimsData() { return p_; } const int32_t* DimsData() const { return p_; } void Resize(int dimensions_count) { n_ = dimensions_count; p_ = new int32_t[dimensions_count]; }
  void ReplaceWith(int dimensions_count, const int32_t* dims_data) { n_ = dimensions_count; p_ = const_cast<int32_t*>(dims_data); }
  template <typename T> void BuildFrom(const T& src_iterable); static RuntimeShape ExtendedShape(int new_shape_size, const RuntimeShape& shape);
  int FlatSize() const; };
inline int MatchingDim(const RuntimeShape& shape1, int index1, const RuntimeShape& shape2, int index2) { return shape1.Dims(index1); }
template <typename... Args> int MatchingDim(const RuntimeShape& shape1, int index1, const RuntimeShape& shape2, int index2, Args... args) { return shape1.Dims(index1); }
inline int FlatSizeSkipDim(const RuntimeShape& shape, int skip_dim) {
  int flat = 1;
  for (int i = 0; i < shape.DimensionsCount(); ++i)
    if (i != skip_dim) flat *= shape.Dims(i);
  return flat;
}
inline int MatchingFlatSize(const RuntimeShape& shape, const RuntimeShape& check_shape_0) { return shape.FlatSize(); }
inline int Offset(const RuntimeShape& shape, int i0, int i1, int i2, int i3) { return ((i0 * shape.Dims(1) + i1) * shape.Dims(2) + i2) * shape.Dims(3) + i3; }
int Offset(const RuntimeShape& shape, int* index);
}
