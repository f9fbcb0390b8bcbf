#include "larq_compute_engine/core/bconv2d/output_transform.h"
#include "larq_compute_engine/core/types.h"
namespace spec {
using namespace compute_engine::core;
using namespace compute_engine::core::bconv2d;
inline float clamped(const int acc, int lo, int hi) {
  const int dot = 2 * acc;
  return dot < lo ? lo : dot > hi ? hi : dot;
}
float Float(const OutputTransform<float>* t, int acc, int c) { return clamped(acc, t->clamp_min, t->clamp_max) * t->multiplier[c] + t->bias[c]; }
std::int8_t Int8(const OutputTransform<std::int8_t>* t, int acc, int c) {
  const int y = tflite::TfLiteRound(clamped(acc, t->clamp_min, t->clamp_max) * t->multiplier[c] + t->bias[c]);
  return y > 127 ? 127 : y < -128 ? -128 : y;
}
bool Bit(const OutputTransform<TBitpacked>* t, int acc, int c) { return t->thresholds[c] < acc; }
}  // namespace spec
