// Stand-in declarations for TensorFlow Lite's C API (names, field layout and macro control flow
// follow TFLite 2.16); used only to type-check the repository's sources, never linked or run.
#pragma once
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum TfLiteStatus { kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2, kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4, kTfLiteDelegateDataWriteError = 5, kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7, kTfLiteCancelled = 8 } TfLiteStatus;
typedef enum { kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3, kTfLiteInt64 = 4,
  kTfLiteString = 5, kTfLiteBool = 6, kTfLiteInt16 = 7, kTfLiteComplex64 = 8, kTfLiteInt8 = 9, kTfLiteFloat16 = 10,
  kTfLiteFloat64 = 11, kTfLiteComplex128 = 12, kTfLiteUInt64 = 13, kTfLiteResource = 14, kTfLiteVariant = 15,
  kTfLiteUInt32 = 16, kTfLiteUInt16 = 17, kTfLiteInt4 = 18, kTfLiteBFloat16 = 19 } TfLiteType;
typedef enum TfLiteAllocationType { kTfLiteMemNone = 0, kTfLiteMmapRo, kTfLiteArenaRw, kTfLiteArenaRwPersistent,
  kTfLiteDynamic, kTfLitePersistentRo, kTfLiteCustom, kTfLiteVariantObject, kTfLiteNonCpu } TfLiteAllocationType;
typedef enum TfLiteQuantizationType { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef struct TfLiteIntArray { int size; int data[]; } TfLiteIntArray;
typedef struct TfLiteFloatArray { int size; float data[]; } TfLiteFloatArray;
typedef struct TfLiteQuantizationParams { float scale; int32_t zero_point; } TfLiteQuantizationParams;
typedef struct TfLiteQuantization { TfLiteQuantizationType type; void* params; } TfLiteQuantization;
typedef struct TfLiteAffineQuantization { TfLiteFloatArray* scale; TfLiteIntArray* zero_point; int32_t quantized_dimension; } TfLiteAffineQuantization;
typedef union TfLitePtrUnion { int32_t* i32; uint32_t* u32; int64_t* i64; float* f; double* f64; char* raw;
  const char* raw_const; uint8_t* uint8; bool* b; int16_t* i16; int8_t* int8; void* data; } TfLitePtrUnion;
typedef struct TfLiteTensor { TfLiteType type; TfLitePtrUnion data; TfLiteIntArray* dims; TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type; size_t bytes; const void* allocation; const char* name; void* delegate;
  int buffer_handle; bool data_is_stale; bool is_variable; TfLiteQuantization quantization;
  const TfLiteIntArray* dims_signature; } TfLiteTensor;
typedef struct TfLiteNode { TfLiteIntArray* inputs; TfLiteIntArray* outputs; TfLiteIntArray* intermediates;
  TfLiteIntArray* temporaries; void* user_data; void* builtin_data; const void* custom_initial_data;
  int custom_initial_data_size; void* delegate; bool might_have_side_effect; } TfLiteNode;
typedef struct TfLiteContext { size_t tensors_size; TfLiteTensor* tensors; void* impl_;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor*, TfLiteIntArray*);
  void (*ReportError)(struct TfLiteContext*, const char*, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int, int*);
  int recommended_num_threads; void* profiler;
  void* (*AllocatePersistentBuffer)(struct TfLiteContext*, size_t);
  TfLiteTensor* (*GetTensor)(const struct TfLiteContext*, int); } TfLiteContext;
typedef struct TfLiteRegistration { void* (*init)(TfLiteContext*, const char*, size_t); void (*free)(TfLiteContext*, void*);
  TfLiteStatus (*prepare)(TfLiteContext*, TfLiteNode*); TfLiteStatus (*invoke)(TfLiteContext*, TfLiteNode*);
  const char* (*profiling_string)(const TfLiteContext*, const TfLiteNode*); int32_t builtin_code; const char* custom_name;
  int version; void* registration_external; void* async_kernel; uint64_t inplace_operator; } TfLiteRegistration;
TfLiteIntArray* TfLiteIntArrayCreate(int size);
int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b);
TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src);
void TfLiteIntArrayFree(TfLiteIntArray* a);
const char* TfLiteTypeGetName(TfLiteType type);
#ifdef __cplusplus
}
#endif
#define TF_LITE_KERNEL_LOG(context, ...) do { (context)->ReportError((context), __VA_ARGS__); } while (false)
#define TF_LITE_ENSURE_MSG(context, value, msg) do { if (!(value)) { TF_LITE_KERNEL_LOG((context), __FILE__ " " msg); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE(context, a) do { if (!(a)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s was not true.", __FILE__, __LINE__, #a); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_STATUS(a) do { const TfLiteStatus s = (a); if (s != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_ENSURE_EQ(context, a, b) do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s (%d != %d)", __FILE__, __LINE__, #a, #b, (a), (b)); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b) do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s (%s != %s)", __FILE__, __LINE__, #a, #b, TfLiteTypeGetName(a), TfLiteTypeGetName(b)); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_NEAR(context, a, b, epsilon) do { auto delta = ((a) > (b)) ? ((a) - (b)) : ((b) - (a)); if (delta > epsilon) { return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_OK(context, status) do { const TfLiteStatus s = (status); if ((s) != kTfLiteOk) { return s; } } while (0)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...) do { if ((context) != nullptr) { (context)->ReportError((context), __VA_ARGS__); } } while (false)
