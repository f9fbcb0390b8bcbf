#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
namespace spec {
using namespace compute_engine::core;
using namespace compute_engine::core::bconv2d;
using namespace compute_engine::core::bitpacking;
using namespace tflite;
using compute_engine::tflite::bconv2d::OpData;
using compute_engine::tflite::bconv2d::KernelType;

void* Init(TfLiteContext* context, const char* buffer, std::size_t length) {
  auto* d = new OpData{};
  const flexbuffers::Map& m = flexbuffers::GetRoot((const std::uint8_t*)buffer, length).AsMap();
  if (m["stride_height"].IsNull() || m["stride_width"].IsNull() || m["dilation_height_factor"].IsNull() || m["dilation_width_factor"].IsNull() ||
      m["padding"].IsNull() || m["pad_values"].IsNull() || m["channels_in"].IsNull() || m["fused_activation_function"].IsNull())
    return d;
  BConv2DParams& p = d->params;
  p.stride_height = m["stride_height"].AsInt32();
  p.stride_width = m["stride_width"].AsInt32();
  p.dilation_height_factor = m["dilation_height_factor"].AsInt32();
  p.dilation_width_factor = m["dilation_width_factor"].AsInt32();
  const int pad = m["padding"].AsInt32();
  p.padding_type = pad == 0 ? kTfLitePaddingSame : pad == 1 ? kTfLitePaddingValid : kTfLitePaddingUnknown;
  p.pad_value = m["pad_values"].AsInt32();
  if (p.pad_value < 0 || p.pad_value > 1) return d;
  p.channels_in = m["channels_in"].AsInt32();
  const int act = m["fused_activation_function"].AsInt32();
  d->fused_activation_function = act == 1 ? kTfLiteActRelu : act == 2 ? kTfLiteActReluN1To1 : act == 3 ? kTfLiteActRelu6 : kTfLiteActNone;
  d->successfully_initialized = true;
  return d;
}

void Free(TfLiteContext*, void* buffer) { delete (OpData*)buffer; }

inline int packed(int n) { return (n + 31) / 32; }

template <KernelType kt>
TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
  auto* d = (OpData*)node->user_data;
  auto* p = &d->params;
  if (!d->successfully_initialized) return kTfLiteError;
  if (node->inputs->size != 5) return kTfLiteError;
  const auto* in = GetInput(context, node, 0);
  const auto* w = GetInput(context, node, 1);
  const auto* mul = GetInput(context, node, 2);
  const auto* bias = GetInput(context, node, 3);
  const auto* thr = GetInput(context, node, 4);
  auto* out = GetOutput(context, node, 0);
  const bool f32 = out->type == kTfLiteFloat32, i8 = out->type == kTfLiteInt8, bits = out->type == kTfLiteInt32;
  if (in->dims->size != 4 || w->dims->size != 4 || in->type != kTfLiteInt32 || w->type != kTfLiteInt32 || !(f32 || i8 || bits)) return kTfLiteError;
  p->channels_out = w->dims->data[0];
  p->filter_height = w->dims->data[1];
  p->filter_width = w->dims->data[2];
  // grouped iff the filter is shallower than the input
  const int depth = packed(p->channels_in), wdepth = w->dims->data[3];
  if (wdepth == depth) {
    p->groups = 1;
  } else {
    if (kt == KernelType::kOptimizedBGEMM) return kTfLiteError;
    if (depth % wdepth != 0) return kTfLiteError;
    const int g = depth / wdepth;
    if ((p->channels_in / g) % 32 != 0 || p->channels_out % g != 0) return kTfLiteError;
    p->groups = g;
  }
  if (p->padding_type == kTfLitePaddingSame && p->pad_value == 0) {
    const bool ok = kt == KernelType::kReference ? p->channels_in % 2 == 0 : f32 && d->fused_activation_function == kTfLiteActNone;
    if (!ok) return kTfLiteError;
  }
  int oh, ow;
  p->padding_values = ComputePaddingHeightWidth(p->stride_height, p->stride_width, p->dilation_height_factor, p->dilation_width_factor, in->dims->data[1],
                                                in->dims->data[2], p->filter_height, p->filter_width, p->padding_type, &oh, &ow);
  if (bits) {
    if (thr->dims->size != 1 || thr->type != kTfLiteInt32 || thr->dims->data[0] != p->channels_out) return kTfLiteError;
  } else {
    if (mul->type != kTfLiteFloat32 || bias->type != kTfLiteFloat32 || mul->dims->size != 1 || bias->dims->size != 1 ||
        mul->dims->data[0] != p->channels_out || bias->dims->data[0] != p->channels_out)
      return kTfLiteError;
  }
  if (i8 && out->quantization.type != kTfLiteAffineQuantization) return kTfLiteError;
  if (kt == KernelType::kOptimizedIndirectBGEMM && in->allocation_type == kTfLiteDynamic) return kTfLiteError;
  TfLiteIntArray* s = TfLiteIntArrayCreate(4);
  s->data[0] = in->dims->data[0];
  s->data[1] = oh;
  s->data[2] = ow;
  s->data[3] = bits ? packed(p->channels_out) : p->channels_out;
  if (context->ResizeTensor(context, out, s) != kTfLiteOk) return kTfLiteError;
  const bool im2col = kt == KernelType::kOptimizedBGEMM &&
                      !(p->stride_height == 1 && p->stride_width == 1 && p->dilation_height_factor == 1 && p->dilation_width_factor == 1 &&
                        p->filter_height == 1 && p->filter_width == 1);
  d->im2col_index = im2col ? 0 : -1;
  if (im2col) {
    TfLiteIntArrayFree(node->temporaries);
    node->temporaries = TfLiteIntArrayCreate(1);
    if (d->im2col_id == -1) context->AddTensors(context, 1, &d->im2col_id);
    node->temporaries->data[0] = d->im2col_id;
    TfLiteIntArray* is = TfLiteIntArrayCopy(s);
    is->data[3] = depth * p->filter_height * p->filter_width;
    TfLiteTensor* t = GetTemporary(context, node, 0);
    t->type = kTfLiteInt32;
    t->allocation_type = kTfLiteArenaRw;
    if (context->ResizeTensor(context, t, is) != kTfLiteOk) return kTfLiteError;
  }
  d->one_time_setup_complete = false;
  return kTfLiteOk;
}
template TfLiteStatus Prepare<KernelType::kReference>(TfLiteContext*, TfLiteNode*);
template TfLiteStatus Prepare<KernelType::kOptimizedBGEMM>(TfLiteContext*, TfLiteNode*);
template TfLiteStatus Prepare<KernelType::kOptimizedIndirectBGEMM>(TfLiteContext*, TfLiteNode*);

// ---- evaluation
// what the setup derives: activation(dot) * mul + bias as a function of the popcount accumulator acc, where dot = K - 2 * acc
// and K is the number of filter taps per group; the kernels clamp acc to [clamp_min, clamp_max] after doubling it
template <typename Dst> void derive(TfLiteContext* context, TfLiteNode* node, OpData* d) {
  const BConv2DParams& p = d->params;
  const auto* w = GetInput(context, node, 1);
  const float* mul = GetTensorData<float>(GetInput(context, node, 2));
  const float* bias = GetTensorData<float>(GetInput(context, node, 3));
  const auto* out = GetOutput(context, node, 0);
  const int cg = p.channels_in / p.groups;
  if (p.padding_type == kTfLitePaddingSame && p.pad_value == 0) {
    d->padding_buffer.resize(zero_padding_correction::GetCacheSize(p.filter_height, p.filter_width, p.channels_out, p.dilation_height_factor, p.dilation_width_factor));
    zero_padding_correction::CacheCorrectionValues(GetTensorData<TBitpacked>(w), p.filter_height, p.filter_width, p.channels_out, cg, p.dilation_height_factor,
                                                   p.dilation_width_factor, mul, d->padding_buffer.data());
  }
  if (std::is_same<Dst, TBitpacked>::value) return;
  const int K = w->dims->data[1] * w->dims->data[2] * cg;
  const bool i8 = std::is_same<Dst, std::int8_t>::value;
  const double scale = i8 ? out->params.scale : 1.0;
  const double zp = i8 ? out->params.zero_point : 0.0;
  d->output_transform_multiplier.resize(p.channels_out + LCE_EXTRA_BYTES / sizeof(float));
  d->output_transform_bias.resize(p.channels_out + LCE_EXTRA_BYTES / sizeof(float));
  for (int c = 0; c < p.channels_out; ++c) {
    d->output_transform_multiplier[c] = -(double)mul[c] / scale;
    d->output_transform_bias[c] = ((double)bias[c] + (double)K * (double)mul[c]) / scale + zp;
  }
  int lo, hi;
  CalculateActivationRange(d->fused_activation_function, &lo, &hi);
  const int hi2 = hi < K ? hi : K, lo2 = lo > -K ? lo : -K;
  d->output_transform_clamp_min = K - hi2;
  d->output_transform_clamp_max = K - lo2;
}

inline void transform(OutputTransform<TBitpacked>& t, TfLiteContext* context, TfLiteNode* node, OpData* d) { t.thresholds = GetTensorData<std::int32_t>(GetInput(context, node, 4)); }
template <typename Dst> void transform(OutputTransform<Dst>& t, TfLiteContext*, TfLiteNode*, OpData* d) {
  t.clamp_min = d->output_transform_clamp_min;
  t.clamp_max = d->output_transform_clamp_max;
  t.multiplier = d->output_transform_multiplier.data();
  t.bias = d->output_transform_bias.data();
}

#if RUY_PLATFORM_ARM_64
const bool kArm64 = true;
#else
const bool kArm64 = false;
#endif

template <KernelType kt, typename Dst> void run(TfLiteContext* context, TfLiteNode* node, OpData* d) {
  if (!d->one_time_setup_complete) {
    derive<Dst>(context, node, d);
    d->one_time_setup_complete = true;
  }
  const BConv2DParams& p = d->params;
  const auto* in = GetInput(context, node, 0);
  const auto* w = GetInput(context, node, 1);
  auto* out = GetOutput(context, node, 0);
  OutputTransform<Dst> t;
  transform(t, context, node, d);
  if (kt == KernelType::kReference) {
    BConv2DReference<std::int32_t, Dst>(&d->params, GetTensorShape(in), GetTensorData<TBitpacked>(in), GetTensorShape(w), GetTensorData<TBitpacked>(w), t, GetTensorShape(out),
                                        GetTensorData<Dst>(out));
  } else if (kt == KernelType::kOptimizedIndirectBGEMM) {
    if (!d->indirect_bgemm_kernel) {
      d->indirect_bgemm_kernel = indirect_bgemm::SelectRuntimeKernel(&d->params, GetTensorShape(in), GetTensorShape(out), t);
      d->indirect_bgemm_kernel->PackWeights(GetTensorData<TBitpacked>(w));
      d->indirect_bgemm_kernel->FillIndirectionBuffer(&d->params, GetTensorShape(in), GetTensorShape(out), GetTensorData<TBitpacked>(in));
    }
    BConv2DOptimizedIndirectBGEMM<Dst>(d->indirect_bgemm_kernel.get(), &d->params, GetTensorShape(in), GetTensorShape(out), GetTensorData<Dst>(out), d->padding_buffer.data(), p.pad_value);
  } else {
    TfLiteTensor* im2col = d->im2col_index < 0 ? nullptr : GetTemporary(context, node, d->im2col_index);
    ConvParams cp;
    cp.padding_type = p.padding_type == kTfLitePaddingSame ? PaddingType::kSame : p.padding_type == kTfLitePaddingValid ? PaddingType::kValid : PaddingType::kNone;
    cp.padding_values.width = p.padding_values.width;
    cp.padding_values.height = p.padding_values.height;
    cp.stride_height = p.stride_height;
    cp.stride_width = p.stride_width;
    cp.dilation_height_factor = p.dilation_height_factor;
    cp.dilation_width_factor = p.dilation_width_factor;
    auto oshape = GetTensorShape(out);
    oshape.SetDim(3, p.channels_out);
    // 16-bit accumulators only when no accumulator can reach 2^16
    if (kArm64 && p.filter_height * p.filter_width * p.channels_in + 512 < 65536)
      BConv2DOptimizedBGEMM<std::int16_t, Dst>(cp, GetTensorShape(in), GetTensorData<TBitpacked>(in), GetTensorShape(w), GetTensorData<TBitpacked>(w), t, oshape, GetTensorData<Dst>(out),
                                               GetTensorShape(im2col), GetTensorData<TBitpacked>(im2col), d->padding_buffer.data(), p.pad_value, CpuBackendContext::GetFromContext(context));
    else
      BConv2DOptimizedBGEMM<std::int32_t, Dst>(cp, GetTensorShape(in), GetTensorData<TBitpacked>(in), GetTensorShape(w), GetTensorData<TBitpacked>(w), t, oshape, GetTensorData<Dst>(out),
                                               GetTensorShape(im2col), GetTensorData<TBitpacked>(im2col), d->padding_buffer.data(), p.pad_value, CpuBackendContext::GetFromContext(context));
  }
}

template <KernelType kt> TfLiteStatus Eval(TfLiteContext* context, TfLiteNode* node) {
  auto* d = (OpData*)node->user_data;
  switch (GetOutput(context, node, 0)->type) {
    case kTfLiteFloat32: run<kt, float>(context, node, d); return kTfLiteOk;
    case kTfLiteInt8: run<kt, std::int8_t>(context, node, d); return kTfLiteOk;
    case kTfLiteInt32: run<kt, TBitpacked>(context, node, d); return kTfLiteOk;
    default: return kTfLiteError;
  }
}
template TfLiteStatus Eval<KernelType::kReference>(TfLiteContext*, TfLiteNode*);
template TfLiteStatus Eval<KernelType::kOptimizedBGEMM>(TfLiteContext*, TfLiteNode*);
template TfLiteStatus Eval<KernelType::kOptimizedIndirectBGEMM>(TfLiteContext*, TfLiteNode*);

// preparation followed by evaluation, as the framework calls the registered callbacks
TfLiteStatus run(TfLiteRegistration* r, TfLiteContext* context, TfLiteNode* node) {
  if (r->prepare(context, node) != kTfLiteOk) return kTfLiteError;
  return r->invoke(context, node);
}
TfLiteStatus PrepareThenEval_kReference(TfLiteContext* context, TfLiteNode* node) { return run(compute_engine::tflite::Register_BCONV_2D_REF(), context, node); }
TfLiteStatus PrepareThenEval_kOptimizedBGEMM(TfLiteContext* context, TfLiteNode* node) { return run(compute_engine::tflite::Register_BCONV_2D_OPT_BGEMM(), context, node); }
TfLiteStatus PrepareThenEval_kOptimizedIndirectBGEMM(TfLiteContext* context, TfLiteNode* node) { return run(compute_engine::tflite::Register_BCONV_2D_OPT_INDIRECT_BGEMM(), context, node); }
}  // namespace spec
namespace spec {
// entry points whose value graph is the kernel object the factory returns
void* select_float(const BConv2DParams* params, const RuntimeShape& ishape, const RuntimeShape& oshape, const OutputTransform<float>& t) { return indirect_bgemm::SelectRuntimeKernel(params, ishape, oshape, t).release(); }
void* select_int8(const BConv2DParams* params, const RuntimeShape& ishape, const RuntimeShape& oshape, const OutputTransform<std::int8_t>& t) { return indirect_bgemm::SelectRuntimeKernel(params, ishape, oshape, t).release(); }
void* select_bits(const BConv2DParams* params, const RuntimeShape& ishape, const RuntimeShape& oshape, const OutputTransform<TBitpacked>& t) { return indirect_bgemm::SelectRuntimeKernel(params, ishape, oshape, t).release(); }
}  // namespace spec
