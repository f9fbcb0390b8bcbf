#pragma once
#include "tensorflow/lite/interpreter.h"
namespace tflite { void PrintInterpreterState(const Interpreter* interpreter); }
