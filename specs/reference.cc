#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/bconv2d/reference.h"
namespace spec {
using namespace compute_engine::core;
using namespace compute_engine::core::bconv2d;
using namespace tflite;
// popcount accumulator of one output position: sum over the taps of the disagreeing bits; taps outside the image
// are +1 (all bits clear), or for zero padding contribute half of the channels of the group
inline std::int32_t acc(const BConv2DParams* p, const RuntimeShape& is, const TBitpacked* in, const RuntimeShape& ws, const TBitpacked* w, int b, int y, int x, int oc) {
  const int H = is.Dims(1), W = is.Dims(2), D = is.Dims(3), O = ws.Dims(0), FH = ws.Dims(1), FW = ws.Dims(2), GD = ws.Dims(3);
  const int g = oc / (O / p->groups);
  std::int32_t a = 0;
  for (int fy = 0; fy < FH; ++fy)
    for (int fx = 0; fx < FW; ++fx) {
      const int iy = y * p->stride_height + fy * p->dilation_height_factor - p->padding_values.height;
      const int ix = x * p->stride_width + fx * p->dilation_width_factor - p->padding_values.width;
      const bool inside = iy >= 0 && iy < H && ix >= 0 && ix < W;
      if (!inside && p->padding_type == kTfLitePaddingSame && p->pad_value == 0) {
        a += (p->channels_in / p->groups) / 2;
      } else {
        for (int c = 0; c < GD; ++c) {
          const TBitpacked v = inside ? in[((b * H + iy) * W + ix) * D + g * GD + c] : 0;
          a += xor_popcount(v, w[((oc * FH + fy) * FW + fx) * GD + c]);
        }
      }
    }
  return a;
}
template <typename Dst>
void conv(const BConv2DParams* p, const RuntimeShape& is, const TBitpacked* in, const RuntimeShape& ws, const TBitpacked* w, const OutputTransform<Dst>& t, const RuntimeShape& os, Dst* out) {
  const int O = ws.Dims(0);
  for (int b = 0; b < is.Dims(0); ++b)
    for (int y = 0; y < os.Dims(1); ++y)
      for (int x = 0; x < os.Dims(2); ++x)
        for (int oc = 0; oc < O; ++oc) out[((b * os.Dims(1) + y) * os.Dims(2) + x) * os.Dims(3) + oc] = t.Run(acc(p, is, in, ws, w, b, y, x, oc), oc);
}
void conv_float(const BConv2DParams* p, const RuntimeShape& is, const TBitpacked* in, const RuntimeShape& ws, const TBitpacked* w, const OutputTransform<float>& t, const RuntimeShape& os, float* out) { conv<float>(p, is, in, ws, w, t, os, out); }
void conv_int8(const BConv2DParams* p, const RuntimeShape& is, const TBitpacked* in, const RuntimeShape& ws, const TBitpacked* w, const OutputTransform<std::int8_t>& t, const RuntimeShape& os, std::int8_t* out) { conv<std::int8_t>(p, is, in, ws, w, t, os, out); }
void conv_bits(const BConv2DParams* p, const RuntimeShape& is, const TBitpacked* in, const RuntimeShape& ws, const TBitpacked* w, const OutputTransform<TBitpacked>& t, const RuntimeShape& os, TBitpacked* out) {
  const int O = ws.Dims(0);
  for (int b = 0; b < is.Dims(0); ++b)
    for (int y = 0; y < os.Dims(1); ++y)
      for (int x = 0; x < os.Dims(2); ++x)
        for (int k = 0; k < (O + 31) / 32; ++k) {
          TBitpacked word = 0;
          const int n = std::min(32, O - k * 32);
          for (int c = 0; c < n; ++c)
            if (t.Run(acc(p, is, in, ws, w, b, y, x, k * 32 + c), k * 32 + c)) word |= TBitpacked(1) << c;
          out[((b * os.Dims(1) + y) * os.Dims(2) + x) * os.Dims(3) + k] = word;
        }
}
// instantiations of the code under analysis
void use(const BConv2DParams* p, const RuntimeShape& is, const TBitpacked* in, const OutputTransform<float>& tf, const OutputTransform<std::int8_t>& ti, const OutputTransform<TBitpacked>& tb, float* f, std::int8_t* i, TBitpacked* o) {
  BConv2DReference<std::int32_t, float>(p, is, in, is, in, tf, is, f);
  BConv2DReference<std::int32_t, std::int8_t>(p, is, in, is, in, ti, is, i);
  BConv2DReference<std::int32_t, TBitpacked>(p, is, in, is, in, tb, is, o);
}
}  // namespace spec
