#pragma once
#include <memory>
#include <string>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/schema/schema_generated.h"
namespace tflite {
class OpResolver { public: virtual const TfLiteRegistration* FindOp(int op, int version) const = 0;
  virtual const TfLiteRegistration* FindOp(const char* op, int version) const = 0; virtual ~OpResolver() {} };
class MutableOpResolver : public OpResolver { public:
  const TfLiteRegistration* FindOp(int op, int version) const override;
  const TfLiteRegistration* FindOp(const char* op, int version) const override;
  void AddBuiltin(BuiltinOperator op, const TfLiteRegistration* registration, int version = 1);
  void AddBuiltin(BuiltinOperator op, const TfLiteRegistration* registration, int min_version, int max_version);
  void AddCustom(const char* name, const TfLiteRegistration* registration, int version = 1);
  void AddCustom(const char* name, const TfLiteRegistration* registration, int min_version, int max_version);
  void AddAll(const MutableOpResolver& other); };
}
