#pragma once
#include <cmath>
namespace tflite { template <class T> inline T TfLiteRound(const T x) { return std::round(x); } }
