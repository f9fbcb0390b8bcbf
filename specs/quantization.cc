#include "larq_compute_engine/tflite/kernels/quantization.cc"
namespace spec {
using namespace tflite;
using compute_engine::core::TBitpacked;
inline int words(int n) { return (n + 31) / 32; }
inline bool value_type(TfLiteType t) { return t == kTfLiteFloat32 || t == kTfLiteInt8 || t == kTfLiteBool; }
TfLiteStatus QuantizePrepare(TfLiteContext* context, TfLiteNode* node) {
  if (NumInputs(node) != 1 || NumOutputs(node) != 1) return kTfLiteError;
  const TfLiteTensor* in = GetInput(context, node, 0);
  TfLiteTensor* out = GetOutput(context, node, 0);
  if (!value_type(in->type) || out->type != kTfLiteInt32) return kTfLiteError;
  const int n = in->dims->size;
  if (n < 1 || out->dims->size != n) return kTfLiteError;
  TfLiteIntArray* s = TfLiteIntArrayCopy(in->dims);
  s->data[n - 1] = words(in->dims->data[n - 1]);
  return context->ResizeTensor(context, out, s);
}
TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
  if (NumInputs(node) != 1 || NumOutputs(node) != 1) return kTfLiteError;
  const TfLiteTensor* in = GetInput(context, node, 0);
  TfLiteTensor* out = GetOutput(context, node, 0);
  if (!value_type(out->type) || in->type != kTfLiteInt32) return kTfLiteError;
  const int n = in->dims->size;
  if (n < 1 || out->dims->size != n) return kTfLiteError;
  for (int i = 0; i < n - 1; ++i)
    if (in->dims->data[i] != out->dims->data[i]) return kTfLiteError;
  if (in->dims->data[n - 1] != words(out->dims->data[n - 1])) return kTfLiteError;
  return kTfLiteOk;
}
inline int rows(const RuntimeShape& s) {
  int n = 1;
  for (int i = 0; i < s.DimensionsCount() - 1; ++i) n *= s.Dims(i);
  return n;
}
template <class T> inline void pack(const TfLiteTensor* in, std::int32_t zp, TBitpacked* out) {
  const RuntimeShape s = GetTensorShape(in);
  const T* x = GetTensorData<T>(in);
  const int R = rows(s), C = s.Dims(s.DimensionsCount() - 1);
  for (int r = 0; r < R; ++r)
    for (int k = 0; k < words(C); ++k) {
      const int n = std::min(32, C - k * 32);
      TBitpacked word = 0;
      for (int c = 0; c < n; ++c)
        if (x[r * C + k * 32 + c] < zp) word |= TBitpacked(1) << c;
      out[r * words(C) + k] = word;
    }
}
TfLiteStatus QuantizeEval(TfLiteContext* context, TfLiteNode* node) {
  const TfLiteTensor* in = GetInput(context, node, 0);
  TBitpacked* out = GetTensorData<TBitpacked>(GetOutput(context, node, 0));
  if (in->type == kTfLiteFloat32) pack<float>(in, 0, out);
  else if (in->type == kTfLiteInt8) pack<std::int8_t>(in, in->params.zero_point, out);
  else if (in->type == kTfLiteBool) pack<std::uint8_t>(in, 1, out);  // false packs to a set bit
  else return kTfLiteError;
  return kTfLiteOk;
}
template <class T> inline void unpack(const TBitpacked* in, TfLiteTensor* out, T zero, T one) {
  const RuntimeShape s = GetTensorShape(out);
  T* y = GetTensorData<T>(out);
  const int R = rows(s), C = s.Dims(s.DimensionsCount() - 1);
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c) y[r * C + c] = (in[r * words(C) + c / 32] >> (c % 32)) & 1 ? one : zero;
}
TfLiteStatus DequantizeEval(TfLiteContext* context, TfLiteNode* node) {
  const TBitpacked* in = GetTensorData<TBitpacked>(GetInput(context, node, 0));
  TfLiteTensor* out = GetOutput(context, node, 0);
  if (out->type == kTfLiteFloat32) unpack<float>(in, out, 1.0f, -1.0f);
  else if (out->type == kTfLiteInt8) {
    // plus and minus one in units of the scale, around the zero point, saturated
    const int d = TfLiteRound(1.0f / out->params.scale), z = out->params.zero_point;
    unpack<std::int8_t>(in, out, std::min(z + d, 127), std::max(z - d, -128));
  } else if (out->type == kTfLiteBool) unpack<bool>(in, out, true, false);
  else return kTfLiteError;
  return kTfLiteOk;
}
}  // namespace spec
