// Support code for demonstrations: just enough of the TFLite runtime to drive one op.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <deque>
#include <limits>
#include <vector>
#include "flatbuffers/flexbuffers.h"
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/kernel_util.h"
#include "tensorflow/lite/kernels/padding.h"
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
#include "tensorflow/lite/kernels/cpu_backend_context.h"
extern "C" {
inline TfLiteIntArray* TfLiteIntArrayCreate(int n) { auto* a = (TfLiteIntArray*)calloc(1, sizeof(int) * (n + 1)); a->size = n; return a; }
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* s) { auto* a = TfLiteIntArrayCreate(s->size); memcpy(a->data, s->data, sizeof(int) * s->size); return a; }
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
inline int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b) { return a->size == b->size && !memcmp(a->data, b->data, sizeof(int) * a->size); }
inline const char* TfLiteTypeGetName(TfLiteType) { return "?"; }
}
#include <algorithm>
namespace rt {
inline std::deque<TfLiteTensor>& tensors() { static std::deque<TfLiteTensor> t; return t; }
inline size_t count(const TfLiteIntArray* d) { size_t n = 1; for (int i = 0; i < d->size; ++i) n *= d->data[i]; return n; }
inline size_t width(TfLiteType t) { return t == kTfLiteInt8 || t == kTfLiteBool || t == kTfLiteUInt8 ? 1 : t == kTfLiteInt16 ? 2 : t == kTfLiteInt64 ? 8 : 4; }
inline void alloc(TfLiteTensor* t) { t->bytes = count(t->dims) * width(t->type); t->data.raw = (char*)calloc(1, t->bytes + 4096); }
inline TfLiteStatus resize(TfLiteContext*, TfLiteTensor* t, TfLiteIntArray* d) { t->dims = d; alloc(t); return kTfLiteOk; }
inline void report(TfLiteContext*, const char* f, ...) { if (getenv("RT_VERBOSE")) { va_list a; va_start(a, f); vfprintf(stderr, f, a); fputc('\n', stderr); va_end(a); } }
inline TfLiteStatus add(TfLiteContext*, int n, int* first) { *first = tensors().size(); for (int i = 0; i < n; ++i) { tensors().push_back(TfLiteTensor()); memset(&tensors().back(), 0, sizeof(TfLiteTensor)); } return kTfLiteOk; }
inline TfLiteIntArray* ints(const std::vector<int>& v) { auto* a = TfLiteIntArrayCreate(v.size()); for (size_t i = 0; i < v.size(); ++i) a->data[i] = v[i]; return a; }
inline int tensor(TfLiteType type, const std::vector<int>& dims, const void* data = nullptr, TfLiteAllocationType al = kTfLiteArenaRw) {
  int i; add(nullptr, 1, &i); auto& t = tensors()[i]; t.type = type; t.dims = ints(dims); t.allocation_type = al; alloc(&t); if (data) memcpy(t.data.raw, data, t.bytes); return i; }
struct Op { TfLiteContext c; TfLiteNode n; flexbuffers::Opts o;
  Op() { memset(&c, 0, sizeof c); memset(&n, 0, sizeof n); c.ResizeTensor = resize; c.ReportError = report; c.AddTensors = add; n.temporaries = TfLiteIntArrayCreate(0); }
  void io(const std::vector<int>& in, const std::vector<int>& out) { n.inputs = ints(in); n.outputs = ints(out); }
  void init(TfLiteRegistration* r) { n.user_data = r->init(&c, (const char*)&o, 1); } };
}
namespace tflite {
inline const TfLiteTensor* GetInput(const TfLiteContext*, const TfLiteNode* n, int i) { return n->inputs->data[i] < 0 ? nullptr : &rt::tensors()[n->inputs->data[i]]; }
inline TfLiteTensor* GetOutput(TfLiteContext*, const TfLiteNode* n, int i) { return &rt::tensors()[n->outputs->data[i]]; }
inline TfLiteTensor* GetTemporary(TfLiteContext*, const TfLiteNode* n, int i) { return &rt::tensors()[n->temporaries->data[i]]; }
template <typename T> inline T* GetTensorData(TfLiteTensor* t) { return t ? (T*)t->data.raw : nullptr; }
template <typename T> inline const T* GetTensorData(const TfLiteTensor* t) { return t ? (const T*)t->data.raw : nullptr; }
inline int64_t NumElements(const TfLiteTensor* t) { return rt::count(t->dims); }
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) { return TfLiteIntArrayEqual(a->dims, b->dims); }
inline int ComputeOutSize(TfLitePadding p, int in, int f, int s, int d) { int e = (f - 1) * d + 1; return s == 0 ? 0 : p == kTfLitePaddingSame ? (in + s - 1) / s : p == kTfLitePaddingValid ? (in + s - e) / s : 0; }
inline TfLitePaddingValues ComputePaddingHeightWidth(int sh, int sw, int dh, int dw, int ih, int iw, int fh, int fw, TfLitePadding p, int* oh, int* ow) {
  *oh = ComputeOutSize(p, ih, fh, sh, dh); *ow = ComputeOutSize(p, iw, fw, sw, dw);
  int th = std::max(0, (*oh - 1) * sh + (fh - 1) * dh + 1 - ih), tw = std::max(0, (*ow - 1) * sw + (fw - 1) * dw + 1 - iw);
  TfLitePaddingValues v; memset(&v, 0, sizeof v); v.height = th / 2; v.width = tw / 2; v.height_offset = th % 2; v.width_offset = tw % 2; return v; }
template <typename T> inline void CalculateActivationRange(TfLiteFusedActivation a, T* lo, T* hi) {
  *lo = a == kTfLiteActReluN1To1 ? -1 : a == kTfLiteActNone ? std::numeric_limits<T>::lowest() : 0;
  *hi = a == kTfLiteActReluN1To1 ? 1 : a == kTfLiteActRelu6 ? 6 : std::numeric_limits<T>::max(); }
}
