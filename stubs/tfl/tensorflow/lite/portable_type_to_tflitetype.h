#pragma once
#include "tensorflow/lite/c/common.h"
namespace tflite { template <TfLiteType T> struct TfLiteTypeToType {};
template <> struct TfLiteTypeToType<kTfLiteBool> { using Type = bool; };
template <> struct TfLiteTypeToType<kTfLiteFloat32> { using Type = float; };
template <> struct TfLiteTypeToType<kTfLiteInt32> { using Type = int32_t; };
template <> struct TfLiteTypeToType<kTfLiteInt8> { using Type = int8_t; }; }
