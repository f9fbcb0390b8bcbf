#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
namespace spec {
using namespace compute_engine::core;
using namespace tflite;
void BMaxPool(const BMaxPoolParams& p, const RuntimeShape& is, const TBitpacked* in, const RuntimeShape& os, TBitpacked* out) {
  for (int b = 0; b < is.Dims(0); ++b)
    for (int y = 0; y < os.Dims(1); ++y)
      for (int x = 0; x < os.Dims(2); ++x)
        for (int c = 0; c < is.Dims(3); ++c) {
          // AND over the part of the window that lies inside the input
          const int y0 = y * p.stride_height - p.padding.height, x0 = x * p.stride_width - p.padding.width;
          const int ya = std::max(y0, 0), yb = std::min(y0 + p.filter_height, is.Dims(1));
          const int xa = std::max(x0, 0), xb = std::min(x0 + p.filter_width, is.Dims(2));
          TBitpacked acc = -1;
          for (int iy = ya; iy < yb; ++iy)
            for (int ix = xa; ix < xb; ++ix) acc &= in[((b * is.Dims(1) + iy) * is.Dims(2) + ix) * is.Dims(3) + c];
          out[((b * os.Dims(1) + y) * os.Dims(2) + x) * os.Dims(3) + c] = acc;
        }
}
void* Init(TfLiteContext* context, const char* buffer, std::size_t length) {
  auto* p = new BMaxPoolParams{};
  const flexbuffers::Map& m = flexbuffers::GetRoot((const std::uint8_t*)buffer, length).AsMap();
  p->filter_height = m["filter_height"].AsInt32();
  p->filter_width = m["filter_width"].AsInt32();
  p->stride_height = m["stride_height"].AsInt32();
  p->stride_width = m["stride_width"].AsInt32();
  const int pad = m["padding"].AsInt32();
  p->padding_type = pad == 0 ? kTfLitePaddingSame : pad == 1 ? kTfLitePaddingValid : kTfLitePaddingUnknown;
  return p;
}
TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
  auto* p = (BMaxPoolParams*)node->user_data;
  if (NumInputs(node) != 1 || NumOutputs(node) != 1) return kTfLiteError;
  TfLiteTensor* out = GetOutput(context, node, 0);
  const TfLiteTensor* in = GetInput(context, node, 0);
  if (NumDimensions(in) != 4 || in->type != kTfLiteInt32 || out->type != kTfLiteInt32) return kTfLiteError;
  if (p->stride_height == 0 || p->stride_width == 0 || p->filter_height == 0 || p->filter_width == 0) return kTfLiteError;
  int oh, ow;
  p->padding = ComputePaddingHeightWidth(p->stride_height, p->stride_width, 1, 1, in->dims->data[1], in->dims->data[2], p->filter_height,
                                         p->filter_width, p->padding_type, &oh, &ow);
  TfLiteIntArray* s = TfLiteIntArrayCreate(4);
  s->data[0] = in->dims->data[0];
  s->data[1] = oh;
  s->data[2] = ow;
  s->data[3] = in->dims->data[3];
  return context->ResizeTensor(context, out, s);
}
TfLiteStatus Eval(TfLiteContext* context, TfLiteNode* node) {
  auto* p = (BMaxPoolParams*)node->user_data;
  const TfLiteTensor* in = GetInput(context, node, 0);
  TfLiteTensor* out = GetOutput(context, node, 0);
  spec::BMaxPool(*p, GetTensorShape(in), GetTensorData<TBitpacked>(in), GetTensorShape(out), GetTensorData<TBitpacked>(out));
  return kTfLiteOk;
}
}  // namespace spec
