// Stand-in for the TFLite FlatBuffers schema: the two enumerations the custom-op options are encoded with.
#pragma once
#include <cstdint>
namespace tflite {
enum Padding : int8_t { Padding_SAME = 0, Padding_VALID = 1, Padding_MIN = 0, Padding_MAX = 1 };
enum ActivationFunctionType : int8_t { ActivationFunctionType_NONE = 0, ActivationFunctionType_RELU = 1, ActivationFunctionType_RELU_N1_TO_1 = 2, ActivationFunctionType_RELU6 = 3, ActivationFunctionType_TANH = 4, ActivationFunctionType_SIGN_BIT = 5, ActivationFunctionType_MIN = 0, ActivationFunctionType_MAX = 5 };
}
namespace tflite { enum BuiltinOperator : int32_t { BuiltinOperator_CUSTOM = 32 }; }
