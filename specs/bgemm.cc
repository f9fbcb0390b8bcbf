#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
#include "larq_compute_engine/core/bgemm/bgemm.h"
#include "larq_compute_engine/core/bconv2d/optimized_bgemm.h"
namespace spec {
namespace core = compute_engine::core;
namespace bgemm = compute_engine::core::bgemm;
using TBitpacked = compute_engine::core::TBitpacked;
using compute_engine::core::bconv2d::OutputTransform;
inline int words(int n) { return (n + 31) / 32; }
inline int least(int a, int b) { return a < b ? a : b; }

template <class Acc, class Dst>
void Kernel(ruy::Tuning tuning, const ruy::SidePair<ruy::PEMat>& src, const void* mul_params, const ruy::SidePair<int>& start,
            const ruy::SidePair<int>& end, ruy::EMat* dst) {
  const ruy::PMat<TBitpacked> l = ruy::UneraseType<TBitpacked>(src[ruy::Side::kLhs]);
  const ruy::PMat<TBitpacked> r = ruy::UneraseType<TBitpacked>(src[ruy::Side::kRhs]);
  const bgemm::BinaryMulParams<Acc, Dst>* mp = static_cast<const bgemm::BinaryMulParams<Acc, Dst>*>(mul_params);
  const int r0 = start[ruy::Side::kLhs], c0 = start[ruy::Side::kRhs];
  const int r1 = least(end[ruy::Side::kLhs], dst->layout.rows), c1 = least(end[ruy::Side::kRhs], dst->layout.cols);
  Dst* out = static_cast<Dst*>(dst->data);
  for (int j = c0; j < c1; ++j)
    for (int i = r0; i < r1; ++i) {
      int n = 0;
      for (int k = 0; k < l.layout.rows; ++k)
        n += core::xor_popcount(*(l.data + ruy::Offset(l.layout, k, i)), *(r.data + ruy::Offset(r.layout, k, j)));
      if (dst->layout.order == ruy::Order::kColMajor)
        out[i + j * dst->layout.stride] = mp->output_transform.Run(n, i);
      else
        out[j + i * dst->layout.stride] = mp->output_transform.Run(n, i);
    }
}
// one word per 32 rows, starting at a row that is a multiple of 32
template <class Acc>
void KernelBits(ruy::Tuning tuning, const ruy::SidePair<ruy::PEMat>& src, const void* mul_params, const ruy::SidePair<int>& start,
            const ruy::SidePair<int>& end, ruy::EMat* dst) {
  const ruy::PMat<TBitpacked> l = ruy::UneraseType<TBitpacked>(src[ruy::Side::kLhs]);
  const ruy::PMat<TBitpacked> r = ruy::UneraseType<TBitpacked>(src[ruy::Side::kRhs]);
  const bgemm::BinaryMulParams<Acc, TBitpacked>* mp = static_cast<const bgemm::BinaryMulParams<Acc, TBitpacked>*>(mul_params);
  const int r0 = start[ruy::Side::kLhs], c0 = start[ruy::Side::kRhs];
  const int r1 = least(end[ruy::Side::kLhs], dst->layout.rows), c1 = least(end[ruy::Side::kRhs], dst->layout.cols);
  TBitpacked* out = static_cast<TBitpacked*>(dst->data);
  for (int j = c0; j < c1; ++j)
    for (int w = 0; w < words(r1 - r0); ++w) {
      TBitpacked v = 0;
      const int m = least(32, r1 - r0 - 32 * w);
      for (int b = 0; b < m; ++b) {
        int n = 0;
        for (int k = 0; k < l.layout.rows; ++k)
          n += core::xor_popcount(*(l.data + ruy::Offset(l.layout, k, r0 + 32 * w + b)), *(r.data + ruy::Offset(r.layout, k, j)));
        if (mp->output_transform.Run(n, r0 + 32 * w + b)) v |= TBitpacked(1) << b;
      }
      out[r0 / 32 + w + j * words(dst->layout.stride)] = v;
    }
}
// the packed layout of the optimised kernels: blocks of four columns, within a block groups of four rows, zero outside
void Pack4x4(const ruy::Mat<TBitpacked>& src, ruy::PMat<TBitpacked>* packed, int start_col, int end_col) {
  const int R = src.layout.rows, C = src.layout.cols;
  for (int q = 0; q < (end_col - start_col + 3) / 4; ++q)
    for (int p = 0; p < (R + 3) / 4; ++p)
      for (int c = 0; c < 4; ++c)
        for (int r = 0; r < 4; ++r) {
          const int col = start_col + 4 * q + c, row = 4 * p + r;
          packed->data[packed->layout.stride * (start_col + 4 * q) + 16 * p + 4 * c + r] =
              row < R && col < C ? src.data.get()[src.layout.stride * col + row] : 0;
        }
}

// dispatch on the order of the source
template <ruy::Path P, class L>
void RunPack(ruy::Tuning tuning, const ruy::EMat& e, ruy::PEMat* pe, int start_col, int end_col) {
  const ruy::Mat<TBitpacked> src = ruy::UneraseType<TBitpacked>(e);
  ruy::PMat<TBitpacked> packed = ruy::UneraseType<TBitpacked>(*pe);
  if (e.layout.order == ruy::Order::kColMajor)
    bgemm::LceRuyPackImpl<P, L, ruy::Order::kColMajor>::Run(tuning, src, &packed, start_col, end_col);
  else
    bgemm::LceRuyPackImpl<P, L, ruy::Order::kRowMajor>::Run(tuning, src, &packed, start_col, end_col);
}
// rows and columns of the blocks each kernel reads
template <ruy::Path P, class Dst, class MP>
void Use(ruy::TrMulParams* params) {
  constexpr bool neon = P == ruy::Path::kNeon;
  constexpr bool wide = neon && std::is_same<typename MP::AccumScalar, std::int16_t>::value;
  using L = ruy::FixedKernelLayout<ruy::Order::kColMajor, neon ? 4 : 1, wide ? 8 : neon ? 4 : std::is_same<Dst, TBitpacked>::value ? 32 : 1>;
  using R = ruy::FixedKernelLayout<ruy::Order::kColMajor, neon ? 4 : 1, neon ? 4 : 1>;
  params->path = P;
  ruy::detail::CreatePackedMatrix<TBitpacked, TBitpacked>(ruy::Side::kLhs, ruy::ToKernelLayout<L>(), params);
  ruy::detail::CreatePackedMatrix<TBitpacked, TBitpacked>(ruy::Side::kRhs, ruy::ToKernelLayout<R>(), params);
  params->run_pack[ruy::Side::kLhs] = &bgemm::RunRuyPack<P, L>;
  params->run_pack[ruy::Side::kRhs] = &bgemm::RunRuyPack<P, R>;
  params->run_kernel = &bgemm::RunBGemmKernel<P, Dst, MP>;
}
template <ruy::Path P, class Dst, class MP>
void Populate(const ruy::Mat<TBitpacked>& lhs, const ruy::Mat<TBitpacked>& rhs, ruy::Mat<Dst>& dst, const MP& mul_params, ruy::TrMulParams* params) {
  params->src[ruy::Side::kLhs] = ruy::EraseType(lhs);
  params->src[ruy::Side::kRhs] = ruy::EraseType(rhs);
  params->dst = ruy::EraseType(dst);
  std::memcpy(reinterpret_cast<MP*>(params->mul_params_bytes), &mul_params, sizeof(MP));
  if (P == ruy::Path::kStandardCpp || lhs.layout.order == ruy::Order::kColMajor && rhs.layout.order == ruy::Order::kColMajor && dst.layout.order == ruy::Order::kColMajor)
    Use<P, Dst, MP>(params);
  else
    Use<ruy::Path::kStandardCpp, Dst, MP>(params);
}
template <class Acc, class Dst, int L, int R>
void Params(const ruy::PMat<TBitpacked>& lhs, const ruy::PMat<TBitpacked>& rhs, int r0, int c0, int r1, int c1, ruy::Mat<Dst>* dst, const bgemm::BinaryMulParams<Acc, Dst>& mp,
            bgemm::BinaryKernelParams<Dst, L, R>* p) {
  const bool bits = std::is_same<Dst, TBitpacked>::value;
  const int stride = bits ? words(dst->layout.stride) : dst->layout.stride;
  p->lhs_base_ptr = &lhs.data[r0 * lhs.layout.stride];
  p->rhs_base_ptr = &rhs.data[c0 * rhs.layout.stride];
  if (bits)
    p->dst_base_ptr = (Dst*)((char*)(dst->data.get() + c0 * stride) + r0 / 8);
  else
    p->dst_base_ptr = dst->data.get() + (c0 * stride + r0);
  p->start_row = r0;
  p->start_col = c0;
  p->last_row = r1 - L;
  p->last_col = c1 - R;
  p->dst_rows = dst->layout.rows;
  p->dst_cols = dst->layout.cols;
  p->lhs_stride = 4 * lhs.layout.stride;
  p->rhs_stride = 4 * rhs.layout.stride;
  p->dst_stride = (int)sizeof(Dst) * stride;
  p->depth = lhs.layout.rows;
  p->output_transform = mp.output_transform;
}
#if RUY_PLATFORM_NEON
template <class D> void Neon(bgemm::BinaryKernelParams<D, 4, 4>& p) { bgemm::BinaryKernelNeon4x4(p); }
#if RUY_PLATFORM_NEON_64
template <class D> void Neon(bgemm::BinaryKernelParams<D, 8, 4>& p) { bgemm::BinaryKernelNeon8x4(p); }
#endif
template <class Acc, class Dst, int L>
void KernelNeon(ruy::Tuning tuning, const ruy::SidePair<ruy::PEMat>& src, const void* mul_params, const ruy::SidePair<int>& start,
            const ruy::SidePair<int>& end, ruy::EMat* dst) {
  ruy::Mat<Dst> d = ruy::UneraseType<Dst>(*dst);
  bgemm::BinaryKernelParams<Dst, L, 4> p;
  bgemm::MakeBinaryKernelParams(ruy::UneraseType<TBitpacked>(src[ruy::Side::kLhs]), ruy::UneraseType<TBitpacked>(src[ruy::Side::kRhs]), start[ruy::Side::kLhs], start[ruy::Side::kRhs],
                                end[ruy::Side::kLhs], end[ruy::Side::kRhs], &d, *static_cast<const bgemm::BinaryMulParams<Acc, Dst>*>(mul_params), &p);
  Neon(p);
}
#endif
// optimised kernels exist on ARM for everything but bits with 32-bit accumulators
template <class Acc, class Dst> constexpr ruy::Path path() {
#if RUY_PLATFORM_NEON
  return std::is_same<Acc, std::int32_t>::value && std::is_same<Dst, TBitpacked>::value ? ruy::Path::kStandardCpp : ruy::Path::kNeon;
#else
  return ruy::Path::kStandardCpp;
#endif
}
template <class Acc, class Dst>
void Multiply(const tflite::cpu_backend_gemm::MatrixParams<TBitpacked>& lp, const TBitpacked* ld, const tflite::cpu_backend_gemm::MatrixParams<TBitpacked>& rp, const TBitpacked* rd,
              const tflite::cpu_backend_gemm::MatrixParams<Dst>& dp, Dst* dd, const OutputTransform<Dst>& t, tflite::CpuBackendContext* context) {
  ruy::Ctx* ctx = ruy::get_ctx(context->ruy_context());
  ruy::Matrix<TBitpacked> l, r;
  ruy::Matrix<Dst> d;
  tflite::cpu_backend_gemm::detail::MakeRuyMatrix(lp, ld, &l, true);
  tflite::cpu_backend_gemm::detail::MakeRuyMatrix(rp, rd, &r, true);
  tflite::cpu_backend_gemm::detail::MakeRuyMatrix(dp, dd, &d);
  ruy::Mat<TBitpacked> il = ruy::ToInternal((const ruy::Matrix<TBitpacked>)l);
  ruy::Mat<TBitpacked> ir = ruy::ToInternal((const ruy::Matrix<TBitpacked>)r);
  ruy::Mat<Dst> id = ruy::ToInternal(d);
  bgemm::BinaryMulParams<Acc, Dst> mp;
  mp.output_transform = t;
  ruy::TrMulParams params;
  bgemm::PopulateBGemmTrMulParams<path<Acc, Dst>()>(ruy::Transpose(il), ir, id, mp, &params);
  ruy::PreparePackedMatrices(ctx, &params);
  ruy::TrMul(ctx, &params);
}
template <class Acc, class Dst>
void Conv(const tflite::ConvParams& params, const tflite::RuntimeShape& ishape, const TBitpacked* in, const tflite::RuntimeShape& fshape, const TBitpacked* filter,
          const OutputTransform<Dst>& t, const tflite::RuntimeShape& oshape, Dst* out, const tflite::RuntimeShape& cshape, TBitpacked* col, const float* correction, const int pad_value,
          tflite::CpuBackendContext* context) {
  if (ishape.DimensionsCount() != 4 || fshape.DimensionsCount() != 4 || oshape.DimensionsCount() != 4) return;
  const bool dilated = params.dilation_width_factor != 1 || params.dilation_height_factor != 1;
  const bool expanded = dilated || params.stride_width != 1 || params.stride_height != 1 || fshape.Dims(1) != 1 || fshape.Dims(2) != 1;
  if (dilated)
    tflite::optimized_ops::DilatedIm2col<TBitpacked>(params, 0, ishape, in, fshape, oshape, col);
  else if (expanded)
    tflite::optimized_ops::Im2col<TBitpacked>(params, fshape.Dims(1), fshape.Dims(2), 0, ishape, in, cshape, col);
  const TBitpacked* rhs = expanded ? col : in;
  const tflite::RuntimeShape& rs = expanded ? cshape : ishape;
  if (std::is_same<Dst, TBitpacked>::value && oshape.Dims(3) % 32 != 0) {
    const int n = oshape.Dims(0) * oshape.Dims(1) * oshape.Dims(2) * words(oshape.Dims(3));
    for (int i = 0; i < n; ++i) out[i] = 0;
  }
  tflite::cpu_backend_gemm::MatrixParams<TBitpacked> lp, rp;
  tflite::cpu_backend_gemm::MatrixParams<Dst> dp;
  lp.order = tflite::cpu_backend_gemm::Order::kRowMajor;
  lp.rows = fshape.Dims(0);
  lp.cols = rs.Dims(3);
  lp.cache_policy = tflite::cpu_backend_gemm::CachePolicy::kAlwaysCache;
  rp.order = tflite::cpu_backend_gemm::Order::kColMajor;
  rp.rows = rs.Dims(3);
  rp.cols = rs.Dims(0) * rs.Dims(1) * rs.Dims(2);
  rp.cache_policy = tflite::cpu_backend_gemm::CachePolicy::kNeverCache;
  dp.order = tflite::cpu_backend_gemm::Order::kColMajor;
  dp.rows = fshape.Dims(0);
  dp.cols = rs.Dims(0) * rs.Dims(1) * rs.Dims(2);
  bgemm::BGemm<Acc>(lp, filter, rp, rhs, dp, out, t, context);
  if (std::is_same<Dst, float>::value && params.padding_type == tflite::PaddingType::kSame && pad_value == 0)
    core::bconv2d::zero_padding_correction::ApplyCorrection(ishape.Dims(0), ishape.Dims(1), ishape.Dims(2), ishape.Dims(3), fshape.Dims(1), fshape.Dims(2), oshape.Dims(3), params.stride_height,
        params.stride_width, params.dilation_height_factor, params.dilation_width_factor, reinterpret_cast<float*>(out), oshape.Dims(1), oshape.Dims(2), correction);
}
}
#define K(P, D, A) template void compute_engine::core::bgemm::RunBGemmKernel<ruy::Path::P, D, compute_engine::core::bgemm::BinaryMulParams<A, D>>(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&, const ruy::SidePair<int>&, ruy::EMat*);
#define M(P, D, A) K(P, D, A) \
  template void spec::Populate<ruy::Path::P, D, compute_engine::core::bgemm::BinaryMulParams<A, D>>(const ruy::Mat<spec::TBitpacked>&, const ruy::Mat<spec::TBitpacked>&, ruy::Mat<D>&, const compute_engine::core::bgemm::BinaryMulParams<A, D>&, ruy::TrMulParams*);
#define C(D, A) \
  template void spec::Multiply<A, D>(const tflite::cpu_backend_gemm::MatrixParams<spec::TBitpacked>&, const spec::TBitpacked*, const tflite::cpu_backend_gemm::MatrixParams<spec::TBitpacked>&, const spec::TBitpacked*, const tflite::cpu_backend_gemm::MatrixParams<D>&, D*, const spec::OutputTransform<D>&, tflite::CpuBackendContext*); \
  template void spec::Conv<A, D>(const tflite::ConvParams&, const tflite::RuntimeShape&, const spec::TBitpacked*, const tflite::RuntimeShape&, const spec::TBitpacked*, const spec::OutputTransform<D>&, const tflite::RuntimeShape&, D*, const tflite::RuntimeShape&, spec::TBitpacked*, const float*, const int, tflite::CpuBackendContext*); \
  template void compute_engine::core::bconv2d::BConv2DOptimizedBGEMM<A, D>(const tflite::ConvParams&, const tflite::RuntimeShape&, const spec::TBitpacked*, const tflite::RuntimeShape&, const spec::TBitpacked*, const spec::OutputTransform<D>&, const tflite::RuntimeShape&, D*, const tflite::RuntimeShape&, spec::TBitpacked*, const float*, const int, tflite::CpuBackendContext*);
M(kStandardCpp, float, std::int32_t)
M(kStandardCpp, std::int8_t, std::int32_t)
M(kStandardCpp, spec::TBitpacked, std::int32_t)
C(float, std::int32_t) C(std::int8_t, std::int32_t) C(spec::TBitpacked, std::int32_t)
#if RUY_PLATFORM_NEON
#define P(D, A, L) \
  template void spec::KernelNeon<A, D, L>(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&, const ruy::SidePair<int>&, ruy::EMat*); \
  template void spec::Params<A, D, L, 4>(const ruy::PMat<spec::TBitpacked>&, const ruy::PMat<spec::TBitpacked>&, int, int, int, int, ruy::Mat<D>*, const compute_engine::core::bgemm::BinaryMulParams<A, D>&, compute_engine::core::bgemm::BinaryKernelParams<D, L, 4>*);
P(float, std::int32_t, 4)
P(std::int8_t, std::int32_t, 4)
template void spec::RunPack<ruy::Path::kNeon, ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>>(ruy::Tuning, const ruy::EMat&, ruy::PEMat*, int, int);
M(kNeon, float, std::int32_t)
M(kNeon, std::int8_t, std::int32_t)
#endif
#if RUY_PLATFORM_NEON_64
P(float, std::int16_t, 8)
P(std::int8_t, std::int16_t, 8)
P(spec::TBitpacked, std::int16_t, 8)
M(kNeon, float, std::int16_t)
M(kNeon, std::int8_t, std::int16_t)
M(kNeon, spec::TBitpacked, std::int16_t)
C(float, std::int16_t) C(std::int8_t, std::int16_t) C(spec::TBitpacked, std::int16_t)
#endif
template void spec::Kernel<std::int32_t, float>(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&, const ruy::SidePair<int>&, ruy::EMat*);
template void spec::Kernel<std::int32_t, std::int8_t>(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&, const ruy::SidePair<int>&, ruy::EMat*);
template void spec::KernelBits<std::int32_t>(ruy::Tuning, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&, const ruy::SidePair<int>&, ruy::EMat*);
template struct compute_engine::core::bgemm::LceRuyPackImpl<ruy::Path::kNeon, ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>, ruy::Order::kColMajor>;
