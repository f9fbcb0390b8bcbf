#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/indirect_bgemm/select_kernel.h"
#include "larq_compute_engine/core/bconv2d/optimized_indirect_bgemm.h"
namespace spec {
using namespace compute_engine::core;
using namespace compute_engine::core::bconv2d;
using compute_engine::core::indirect_bgemm::Kernel;
using compute_engine::core::indirect_bgemm::Kernel4x2Portable;
inline int ceildiv(int a, int b) { return (a + b - 1) / b; }
// weights in blocks of output channels, per group: [group][channel block][tap][depth block][channel in block][word in depth block]
struct PW : Kernel {
  void PackWeights(const TBitpacked* w) {
    const int D = input_depth / groups, O = output_channels / groups, bo = block_size_output_channels, bd = block_size_depth, F = filter_size;
    const int nb = ceildiv(O, bo), nd = ceildiv(D, bd);
    packed_weights.resize(groups * nb * bo * F * D + bo * bd);
    for (int g = 0; g < groups; ++g)
      for (int b = 0; b < nb; ++b)
        for (int f = 0; f < F; ++f)
          for (int d = 0; d < nd; ++d) {
            const int n = std::min(bo, O - b * bo);
            for (int o = 0; o < n; ++o)
              for (int c = 0; c < bd; ++c)
                packed_weights[((((g * nb + b) * F + f) * nd + d) * bo + o) * bd + c] = w[((g * O + b * bo + o) * F + f) * D + d * bd + c];
          }
  }
  // pointers to the input pixel under each tap of each output pixel, in tiles of pixels: [tile][tap][pixel in tile]
  void FillIndirectionBuffer(const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, const TBitpacked* in) {
    const int H = is.Dims(1), W = is.Dims(2), OH = os.Dims(1), OW = os.Dims(2), bp = block_size_pixels, F = filter_size, N = num_output_pixels;
    const int nt = ceildiv(N, bp);
    indirection_buffer.assign(nt * bp * F + bp, in);
    zero_buffer.assign(input_depth, 0);
    for (int t = 0; t < nt; ++t)
      for (int i = 0; i < bp; ++i)
        for (int fy = 0; fy < p->filter_height; ++fy)
          for (int fx = 0; fx < p->filter_width; ++fx) {
            const int o = std::min(t * bp + i, N - 1);
            const int b = o / (OH * OW), y = o % (OH * OW) / OW, x = o % OW;
            const int iy = y * p->stride_height + fy * p->dilation_height_factor - p->padding_values.height;
            const int ix = x * p->stride_width + fx * p->dilation_width_factor - p->padding_values.width;
            const bool inside = iy >= 0 && iy < H && ix >= 0 && ix < W;
            indirection_buffer[t * bp * F + (fy * p->filter_width + fx) * bp + i] = inside ? in + ((b * H + iy) * W + ix) * input_depth : zero_buffer.data();
          }
  }
};
// accumulator of output pixel q and channel oc from the packed operands of a 4x2x1 kernel
inline std::int32_t acc(const Kernel* k, int q, int oc) {
  const int D = k->input_depth / k->groups, O = k->output_channels / k->groups, F = k->filter_size;
  const int g = oc / O, o = oc % O, nb = ceildiv(O, 4);
  std::int32_t a = 0;
  for (int f = 0; f < F; ++f)
    for (int d = 0; d < D; ++d)
      a += xor_popcount(k->packed_weights[(((g * nb + o / 4) * F + f) * D + d) * 4 + o % 4], k->indirection_buffer[(q / 2 * F + f) * 2 + q % 2][g * D + d]);
  return a;
}
template <typename Dst> void run(const Kernel4x2Portable<Dst>* k, int start, int end, Dst* out) {
  for (int q = start; q < end; ++q)
    for (int oc = 0; oc < k->output_channels; ++oc) out[q * k->output_channels + oc] = k->output_transform.Run(acc(k, q, oc), oc);
}
void run_float(const Kernel4x2Portable<float>* k, int start, int end, void* out) { run<float>(k, start, end, (float*)out); }
void run_int8(const Kernel4x2Portable<std::int8_t>* k, int start, int end, void* out) { run<std::int8_t>(k, start, end, (std::int8_t*)out); }
// packed output in halves of 16 channels
void run_bits(const Kernel4x2Portable<TBitpacked>* k, int start, int end, void* out) {
  const int O = k->output_channels;
  std::int16_t* h = (std::int16_t*)(TBitpacked*)out;
  for (int q = start; q < end; ++q)
    for (int i = 0; i < ceildiv(O, 16); ++i) {
      const int n = std::min(16, O - i * 16);
      TBitpacked v = 0;
      for (int c = 0; c < n; ++c)
        if (k->output_transform.Run(acc(k, q, i * 16 + c), i * 16 + c)) v |= TBitpacked(1) << c;
      h[q * 2 * ceildiv(O, 32) + i] = (std::int16_t)v;
    }
}
// zero the padding bits, run the kernel over all output pixels, correct zero padding (float only)
template <typename Dst> void conv(const Kernel* k, const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, Dst* out, const float* pb, const int pad_value) {
  if (std::is_same<Dst, TBitpacked>::value && k->output_channels % 32 != 0) {
    const int n = k->num_output_pixels * ceildiv(k->output_channels, 32);
    for (int i = 0; i < n; ++i) out[i] = 0;
  }
  k->Run(0, k->num_output_pixels, (void*)out);
  if (std::is_same<Dst, float>::value && p->padding_type == kTfLitePaddingSame && pad_value == 0)
    zero_padding_correction::ApplyCorrection(is.Dims(0), is.Dims(1), is.Dims(2), p->channels_in / p->groups, p->filter_height, p->filter_width, os.Dims(3), p->stride_height, p->stride_width,
                                             p->dilation_height_factor, p->dilation_width_factor, (float*)out, os.Dims(1), os.Dims(2), pb);
}
void conv_float(const Kernel* k, const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, float* out, const float* pb, const int pad_value) { conv<float>(k, p, is, os, out, pb, pad_value); }
void conv_int8(const Kernel* k, const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, std::int8_t* out, const float* pb, const int pad_value) { conv<std::int8_t>(k, p, is, os, out, pb, pad_value); }
void conv_bits(const Kernel* k, const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, TBitpacked* out, const float* pb, const int pad_value) { conv<TBitpacked>(k, p, is, os, out, pb, pad_value); }
// the problem sizes a kernel object keeps
struct KF { int bo, bp, bd, depth, oc, fs, groups, pixels; };
KF fields(const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os) {
  KF f;
  f.bo = 4; f.bp = 2; f.bd = 1; f.depth = is.Dims(3); f.oc = p->channels_out; f.fs = p->filter_height * p->filter_width; f.groups = p->groups;
  f.pixels = is.Dims(0) * os.Dims(1) * os.Dims(2);
  return f;
}
template <typename Dst> KF built(const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, const OutputTransform<Dst>& t) {
  Kernel4x2Portable<Dst> k(p, is, os, t);
  KF f;
  f.bo = k.block_size_output_channels; f.bp = k.block_size_pixels; f.bd = k.block_size_depth; f.depth = k.input_depth; f.oc = k.output_channels; f.fs = k.filter_size; f.groups = k.groups;
  f.pixels = k.num_output_pixels;
  return f;
}
KF built_float(const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, const OutputTransform<float>& t) { return built<float>(p, is, os, t); }
KF built_int8(const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, const OutputTransform<std::int8_t>& t) { return built<std::int8_t>(p, is, os, t); }
KF built_bits(const BConv2DParams* p, const RuntimeShape& is, const RuntimeShape& os, const OutputTransform<TBitpacked>& t) { return built<TBitpacked>(p, is, os, t); }
void use(const BConv2DParams* p, const RuntimeShape& s, const OutputTransform<float>& f, const OutputTransform<std::int8_t>& i, const OutputTransform<TBitpacked>& b, void* out) {
  Kernel4x2Portable<float>(p, s, s, f).Run(0, 1, out);
  Kernel4x2Portable<std::int8_t>(p, s, s, i).Run(0, 1, out);
  Kernel4x2Portable<TBitpacked>(p, s, s, b).Run(0, 1, out);
  const Kernel* k = nullptr;
  BConv2DOptimizedIndirectBGEMM<std::int32_t, float>(k, p, s, s, (float*)out, nullptr, 0);
  BConv2DOptimizedIndirectBGEMM<std::int32_t, std::int8_t>(k, p, s, s, (std::int8_t*)out, nullptr, 0);
  BConv2DOptimizedIndirectBGEMM<std::int32_t, TBitpacked>(k, p, s, s, (TBitpacked*)out, nullptr, 0);
}
}  // namespace spec
