#pragma once
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/model.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/tools/logging.h"
namespace tflite {
class Flag { public: enum FlagType { kPositional, kRequired, kOptional };
  template <typename T> static Flag CreateFlag(const char* name, T* val, const char* usage, FlagType t = kOptional); };
template <typename T> Flag CreateFlag(const char* name, void* params, const std::string& usage);
namespace benchmark {
class BenchmarkParam { public: template <typename T> static std::unique_ptr<BenchmarkParam> Create(const T& v); };
class BenchmarkParams { public: template <typename T> T Get(const std::string& name) const; void AddParam(const std::string& name, std::unique_ptr<BenchmarkParam> p); template <typename T> void Set(const std::string& name, const T& value); bool HasParam(const std::string&) const; };
class BenchmarkModel { public: virtual ~BenchmarkModel(); virtual TfLiteStatus Run(int argc, char** argv); virtual TfLiteStatus Run();
 protected: virtual void LogParams(); virtual TfLiteStatus ValidateParams(); TfLiteStatus ParseFlags(int argc, char** argv); TfLiteStatus ParseFlags(int* argc, char** argv); virtual std::vector<Flag> GetFlags(); BenchmarkParams params_; };
class BenchmarkTfLiteModel : public BenchmarkModel { public: explicit BenchmarkTfLiteModel(BenchmarkParams params = DefaultParams()); ~BenchmarkTfLiteModel() override;
  std::vector<Flag> GetFlags() override; void LogParams() override; TfLiteStatus ValidateParams() override; uint64_t ComputeInputBytes(); TfLiteStatus Init();
  static BenchmarkParams DefaultParams(); protected: virtual std::unique_ptr<tflite::OpResolver> GetOpResolver() const; virtual TfLiteStatus InitInterpreter(); };
} }
#define LOG_BENCHMARK_PARAM(params_type, name, prefix, verbose) do { TFLITE_LOG(INFO) << prefix << ": " << params_.Get<params_type>(name); } while (0)
