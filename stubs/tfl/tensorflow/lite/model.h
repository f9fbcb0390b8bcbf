#pragma once
#include "tensorflow/lite/interpreter.h"
namespace tflite {
class ErrorReporter { public: virtual ~ErrorReporter(); };
ErrorReporter* DefaultErrorReporter();
class FlatBufferModel { public: static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* filename, ErrorReporter* e = DefaultErrorReporter());
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* buf, size_t size, ErrorReporter* e = DefaultErrorReporter());
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromBuffer(const char* buf, size_t size, void* v = nullptr, ErrorReporter* e = DefaultErrorReporter()); };
class InterpreterBuilder { public: InterpreterBuilder(const FlatBufferModel& model, const OpResolver& op_resolver); TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter, int num_threads); TfLiteStatus SetNumThreads(int n); };
}
