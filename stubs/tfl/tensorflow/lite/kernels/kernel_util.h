#pragma once
#include <stdint.h>
#include <limits>
#include <string>
#include <algorithm>
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
const TfLiteTensor* GetInput(const TfLiteContext* context, const TfLiteNode* node, int index);
inline TfLiteStatus GetInputSafe(const TfLiteContext* context, const TfLiteNode* node, int index, const TfLiteTensor** tensor) { *tensor = GetInput(context, node, index); return kTfLiteOk; }
TfLiteTensor* GetVariableInput(TfLiteContext* context, const TfLiteNode* node, int index);
TfLiteTensor* GetOutput(TfLiteContext* context, const TfLiteNode* node, int index);
inline TfLiteStatus GetOutputSafe(TfLiteContext* context, const TfLiteNode* node, int index, TfLiteTensor** tensor) { *tensor = GetOutput(context, node, index); return kTfLiteOk; }
const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* context, const TfLiteNode* node, int index);
TfLiteTensor* GetTemporary(TfLiteContext* context, const TfLiteNode* node, int index);
inline TfLiteStatus GetTemporarySafe(TfLiteContext* context, const TfLiteNode* node, int index, TfLiteTensor** tensor) { *tensor = GetTemporary(context, node, index); return kTfLiteOk; }
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int dim) { return t->dims->data[dim]; }
inline int NumInputs(const TfLiteNode* node) { return node->inputs->size; }
inline int NumOutputs(const TfLiteNode* node) { return node->outputs->size; }
int NumIntermediates(const TfLiteNode* node);
int64_t NumElements(const TfLiteTensor* t);
inline bool IsConstantTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteMmapRo; }
bool IsConstantOrPersistentTensor(const TfLiteTensor* t);
inline bool IsDynamicTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteDynamic; }
void SetTensorToDynamic(TfLiteTensor* tensor);
bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b);
template <typename T> void CalculateActivationRange(TfLiteFusedActivation activation, T* activation_min, T* activation_max);
TfLiteStatus CalculateActivationRangeQuantized(TfLiteContext* context, TfLiteFusedActivation activation, TfLiteTensor* output, int32_t* act_min, int32_t* act_max);
}
