// A binary convolution problem with an independent definition of its result.
#pragma once
#include "rt.h"
struct Conv {
  int n = 1, ih = 5, iw = 5, ci = 32, co = 4, fh = 3, fw = 3, sh = 1, sw = 1, dh = 1, dw = 1, pad = 0 /*0 same 1 valid*/, padval = 1, act = 0, groups = 1;
  std::vector<int> in, w;  // +1/-1, NHWC and OHWI(ci/groups)
  std::vector<float> mul, bias;
  unsigned s = 12345;
  int rnd() { s = s * 1664525u + 1013904223u; return s >> 16; }
  void fill() { in.resize(n * ih * iw * ci); w.resize(co * fh * fw * ci / groups); for (int& x : in) x = rnd() & 1 ? 1 : -1; for (int& x : w) x = rnd() & 1 ? 1 : -1;
    mul.resize(co); bias.resize(co); for (int i = 0; i < co; ++i) { mul[i] = (rnd() % 7 - 3) * 0.5f; bias[i] = rnd() % 5 - 2; } }
  int oh() const { return pad == 0 ? (ih + sh - 1) / sh : (ih + sh - ((fh - 1) * dh + 1)) / sh; }
  int ow() const { return pad == 0 ? (iw + sw - 1) / sw : (iw + sw - ((fw - 1) * dw + 1)) / sw; }
  // the plus/minus one dot product
  int dot(int b, int y, int x, int o) const {
    int ph = pad == 0 ? std::max(0, (oh() - 1) * sh + (fh - 1) * dh + 1 - ih) / 2 : 0, pw = pad == 0 ? std::max(0, (ow() - 1) * sw + (fw - 1) * dw + 1 - iw) / 2 : 0;
    int cg = ci / groups, g = o / (co / groups), acc = 0;
    for (int i = 0; i < fh; ++i) for (int j = 0; j < fw; ++j) for (int c = 0; c < cg; ++c) {
      int yy = y * sh - ph + i * dh, xx = x * sw - pw + j * dw;
      int v = yy < 0 || yy >= ih || xx < 0 || xx >= iw ? padval : in[((b * ih + yy) * iw + xx) * ci + g * cg + c];
      acc += v * w[((o * fh + i) * fw + j) * cg + c]; }
    return acc; }
  float clamp(float v) const { return act == 1 ? std::max(v, 0.f) : act == 2 ? std::min(1.f, std::max(v, -1.f)) : act == 3 ? std::min(6.f, std::max(v, 0.f)) : v; }
  static std::vector<int> pack(const std::vector<int>& v, int ch) { std::vector<int> r; int words = (ch + 31) / 32; for (size_t p = 0; p < v.size() / ch; ++p) for (int k = 0; k < words; ++k) {
      unsigned b = 0; for (int c = 0; c < 32 && k * 32 + c < ch; ++c) if (v[p * ch + k * 32 + c] < 0) b |= 1u << c; r.push_back(b); } return r; }
  void options(rt::Op& op) const { op.o = {{"stride_height", sh}, {"stride_width", sw}, {"dilation_height_factor", dh}, {"dilation_width_factor", dw}, {"padding", pad}, {"pad_values", padval}, {"channels_in", ci}, {"fused_activation_function", act}}; }
  std::vector<int> ti;
  // sets up operands; thresholds used when type is int32
  void operands(rt::Op& op, TfLiteType type, const std::vector<int>& thr = {}, float scale = 1, int zp = 0) {
    int cg = ci / groups; auto pin = pack(in, ci), pw = pack(w, cg); bool bits = type == kTfLiteInt32;
    int a = rt::tensor(kTfLiteInt32, {n, ih, iw, (ci + 31) / 32}, pin.data()), f = rt::tensor(kTfLiteInt32, {co, fh, fw, (cg + 31) / 32}, pw.data());
    int m = rt::tensor(kTfLiteFloat32, {co}, mul.data()), b = rt::tensor(kTfLiteFloat32, {co}, bias.data());
    std::vector<int> th = thr; th.resize(co); int t = rt::tensor(kTfLiteInt32, {co}, th.data()), o = rt::tensor(type, {1});
    auto& ot = rt::tensors()[o]; ot.params.scale = scale; ot.params.zero_point = zp; ot.quantization.type = type == kTfLiteInt8 ? kTfLiteAffineQuantization : kTfLiteNoQuantization; (void)bits;
    ti = {a, f, m, b, t}; op.io(ti, {o}); }
  TfLiteTensor& out(rt::Op& op) const { return rt::tensors()[op.n.outputs->data[0]]; }
  // number of wrong float outputs
  int wrong(rt::Op& op) const { auto& o = out(op); int bad = 0; std::vector<int> d = {n, oh(), ow(), co};
    for (int i = 0; i < 4; ++i) if (o.dims->size != 4 || o.dims->data[i] != d[i]) return 1 << 20;
    for (int b = 0; b < n; ++b) for (int y = 0; y < oh(); ++y) for (int x = 0; x < ow(); ++x) for (int c = 0; c < co; ++c) {
      float e = clamp(dot(b, y, x, c)) * mul[c] + bias[c], g = ((float*)o.data.raw)[((b * oh() + y) * ow() + x) * co + c]; if (std::fabs(e - g) > 1e-3) { if (!bad && getenv("RT_VERBOSE")) fprintf(stderr, "at %d,%d,%d,%d: expected %g got %g\n", b, y, x, c, e, g); ++bad; } }
    return bad; }
};
