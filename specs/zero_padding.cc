#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bconv2d/zero_padding_correction.h"
namespace spec {
using compute_engine::core::TBitpacked;
namespace zpc = compute_engine::core::bconv2d::zero_padding_correction;
// what preparation and evaluation do together
unsigned long Composed(const TBitpacked* filter, int fh, int fw, int fc, int channels, int dil_h, int dil_w, const float* multiplier,
              float* cache, int batches, int ih, int iw, int sh, int sw, float* out, int oh, int ow) {
  zpc::CacheCorrectionValues(filter, fh, fw, fc, channels, dil_h, dil_w, multiplier, cache);
  zpc::ApplyCorrection(batches, ih, iw, channels, fh, fw, fc, sh, sw, dil_h, dil_w, out, oh, ow, cache);
  return zpc::GetCacheSize(fh, fw, fc, dil_h, dil_w);
}
unsigned long Composed32(const TBitpacked* filter, int fh, int fw, int fc, int channels, int dil_h, int dil_w, const float* multiplier,
              float* cache, int batches, int ih, int iw, int sh, int sw, float* out, int oh, int ow) {
  const int pt = ((oh - 1) * sh + (fh - 1) * dil_h + 1 - ih) / 2;
  const int pl = ((ow - 1) * sw + (fw - 1) * dil_w + 1 - iw) / 2;
  const int words = (channels + 31) / 32;
  for (int b = 0; b < batches; ++b)
    for (int oy = 0; oy < oh; ++oy)
      for (int ox = 0; ox < ow; ++ox)
        for (int c = 0; c < fc; ++c) {
          int wrong = 0;
          for (int ky = 0; ky < fh; ++ky)
            for (int kx = 0; kx < fw; ++kx) {
              const int y = oy * sh - pt + ky * dil_h;
              const int x = ox * sw - pl + kx * dil_w;
              if (y < 0 || y >= ih || x < 0 || x >= iw) {
                wrong += channels;
                for (int w = 0; w < words; ++w)
                  wrong -= 2 * compute_engine::core::xor_popcount(filter[((c * fh + ky) * fw + kx) * words + w], 0);
              }
            }
          out[((b * oh + oy) * ow + ox) * fc + c] += -multiplier[c] * wrong;
        }
  return zpc::GetCacheSize(fh, fw, fc, dil_h, dil_w);
}
}
