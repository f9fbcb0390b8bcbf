#pragma once
#include <cmath>
namespace tflite { template <class T> T TfLiteRound(const T x); template <class T> T TfLiteExpm1(const T x); }
