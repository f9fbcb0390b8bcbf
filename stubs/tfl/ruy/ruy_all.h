// Stand-in declarations for the parts of ruy the repository instantiates.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include "ruy/check_macros.h"
#include "ruy/opt_set.h"
#include "ruy/platform.h"
#include "ruy/profiler/instrumentation.h"
#define RUY_STR_UNEXPANDED(x) #x
#define RUY_STR(s) RUY_STR_UNEXPANDED(s)
namespace ruy {
enum class Order : std::uint8_t { kColMajor, kRowMajor };
enum class Path : std::uint8_t { kNone = 0, kStandardCpp = 0x1, kInternalStandardCppVariant1 = 0x2, kInternalStandardCppVariant2 = 0x4,
  kInternalStandardCppVariant3 = 0x8, kNeon = 0x10, kNeonDotprod = 0x20 };
enum class Tuning { kAuto, kGeneric, kA55ish, kX1 };
enum class Side { kLhs = 0, kRhs = 1 };
enum class CachePolicy : std::uint8_t { kNeverCache, kCacheIfLargeSpeedup, kAlwaysCache };
template <typename T> class SidePair { public: SidePair() {} const T& operator[](Side side) const { return elem_[(int)side]; } T& operator[](Side side) { return elem_[(int)side]; } private: T elem_[2]; };
template <Order tOrder, int tRows, int tCols> struct FixedKernelLayout { static constexpr Order kOrder = tOrder; static constexpr int kRows = tRows; static constexpr int kCols = tCols; };
struct KernelLayout { Order order = Order::kColMajor; std::uint8_t rows = 1; std::uint8_t cols = 1; };
struct MatLayout { std::int32_t rows = 0; std::int32_t cols = 0; std::int32_t stride = 0; Order order = Order::kColMajor; };
struct PMatLayout { std::int32_t rows = 0; std::int32_t cols = 0; std::int32_t stride = 0; Order order = Order::kColMajor; KernelLayout kernel; };
class Layout { public: int rows() const; int cols() const; int stride() const; Order order() const; };
namespace detail { template <typename T> struct ConstCheckingPtr { T* ptr = nullptr; const T* get() const { return ptr; } T* get() { return ptr; } }; }
template <typename Scalar> struct Mat { detail::ConstCheckingPtr<Scalar> data; MatLayout layout; Scalar zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
template <typename Scalar> struct PMat { Scalar* data = nullptr; std::int32_t* sums = nullptr; PMatLayout layout; std::int32_t zero_point = 0; };
struct Type { bool is_signed = false; bool is_floating_point = false; std::uint8_t size = 0; };
struct EMat { Type data_type; void* data = nullptr; MatLayout layout; std::int32_t zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
struct PEMat { Type data_type; void* data = nullptr; Type sums_type; void* sums = nullptr; PMatLayout layout; std::int32_t zero_point = 0; };
template <typename Scalar> class Matrix { public: Scalar* data(); const Scalar* data() const; const Layout& layout() const; Layout* mutable_layout(); void set_data(Scalar*); Scalar zero_point() const; void set_zero_point(Scalar); CachePolicy cache_policy() const; void set_cache_policy(CachePolicy); };
template <typename T> Mat<T> ToInternal(const Matrix<T>& src);
template <typename T> Mat<T> ToInternal(Matrix<T>& src);
template <typename T> EMat EraseType(const Mat<T>& matrix) { EMat r; r.data = const_cast<void*>(static_cast<const void*>(matrix.data.get())); r.layout = matrix.layout; r.zero_point = matrix.zero_point; r.cache_policy = matrix.cache_policy; return r; }
template <typename T> PEMat EraseType(const PMat<T>& matrix);
template <typename T> Mat<T> UneraseType(const EMat& matrix) { Mat<T> r; r.data.ptr = static_cast<T*>(matrix.data); r.layout = matrix.layout; r.zero_point = matrix.zero_point; r.cache_policy = matrix.cache_policy; return r; }
template <typename T> PMat<T> UneraseType(const PEMat& matrix) { PMat<T> r; r.data = static_cast<T*>(matrix.data); r.layout = matrix.layout; r.zero_point = matrix.zero_point; return r; }
template <typename T> Mat<T> Transpose(const Mat<T>& matrix) { Mat<T> r = matrix; r.layout.rows = matrix.layout.cols; r.layout.cols = matrix.layout.rows; r.layout.order = matrix.layout.order == Order::kColMajor ? Order::kRowMajor : Order::kColMajor; return r; }
inline bool IsColMajor(const MatLayout& layout) { return layout.order == Order::kColMajor; }
inline bool IsColMajor(const PMatLayout& layout) { return layout.order == Order::kColMajor; }
inline bool IsRowMajor(const MatLayout& layout) { return layout.order == Order::kRowMajor; }
inline int Offset(const MatLayout& layout, int row, int col) { return layout.order == Order::kColMajor ? row + col * layout.stride : col + row * layout.stride; }
int Offset(const PMatLayout& layout, int row, int col);
template <typename S> S Element(const Mat<S>& mat, int row, int col) { return *(mat.data.get() + Offset(mat.layout, row, col)); }
template <typename S> S Element(const PMat<S>& mat, int row, int col) { return *(mat.data + Offset(mat.layout, row, col)); }
template <typename S> S* ElementPtr(Mat<S>* mat, int row, int col) { return mat->data.get() + Offset(mat->layout, row, col); }
template <typename S> S* ElementPtr(PMat<S>* mat, int row, int col) { return mat->data + Offset(mat->layout, row, col); }
template <typename FixedKernelLayout> KernelLayout ToKernelLayout() { KernelLayout r; r.order = FixedKernelLayout::kOrder; r.rows = FixedKernelLayout::kRows; r.cols = FixedKernelLayout::kCols; return r; }
template <Path ThePath, typename FixedKernelLayout, typename Scalar, typename PackedScalar, typename SumsType, Order SrcOrder> struct PackImpl {
  static void Run(Tuning, const Mat<Scalar>& src_matrix, PMat<PackedScalar>* packed_matrix, int start_col, int end_col); };
constexpr int kMaxMulParamsSize = 128; constexpr int kMaxMulParamsAlignment = 16;
using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*, const SidePair<int>&, const SidePair<int>&, EMat*);
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
struct TrMulParams { SidePair<RunPackFn*> run_pack; RunKernelFn* run_kernel = nullptr; Path path; int local_data_cache_size = 0; int last_level_cache_size = 0; SidePair<EMat> src; EMat dst; SidePair<PEMat> packed_matrix; SidePair<bool> is_prepacked; alignas(kMaxMulParamsAlignment) char mul_params_bytes[kMaxMulParamsSize]; };
namespace detail { template <typename Scalar, typename PackedScalar> void CreatePackedMatrix(Side side, const KernelLayout& kernel_layout, TrMulParams* params); }
class Allocator { public: void FreeAll(); };
class Ctx { public: Allocator* GetMainAllocator(); Tuning GetMainThreadTuning(); };
class Context { public: int max_num_threads() const; void set_max_num_threads(int); };
Ctx* get_ctx(Context* context);
const Ctx& get_ctx(const Context& context);
void PreparePackedMatrices(Ctx* ctx, TrMulParams* params);
void TrMul(Ctx* ctx, TrMulParams* params);
template <typename A, typename D> class MulParams {};
}
