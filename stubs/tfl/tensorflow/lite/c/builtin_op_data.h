#pragma once
#include "tensorflow/lite/c/common.h"
typedef enum { kTfLitePaddingUnknown = 0, kTfLitePaddingSame, kTfLitePaddingValid } TfLitePadding;
typedef struct { int width; int height; int width_offset; int height_offset; } TfLitePaddingValues;
typedef enum { kTfLiteActNone = 0, kTfLiteActRelu, kTfLiteActReluN1To1, kTfLiteActRelu6, kTfLiteActTanh, kTfLiteActSignBit, kTfLiteActSigmoid } TfLiteFusedActivation;
