#pragma once
#include "tensorflow/lite/op_resolver.h"
namespace tflite { namespace ops { namespace builtin {
class BuiltinOpResolver : public MutableOpResolver { public: BuiltinOpResolver(); };
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver { public: BuiltinOpResolverWithoutDefaultDelegates(); };
class BuiltinRefOpResolver : public MutableOpResolver { public: BuiltinRefOpResolver(); };
} } }
