#include "larq_compute_engine/tflite/benchmark/lce_benchmark_tflite_model.cc"
#include "larq_compute_engine/tflite/benchmark/lce_benchmark_main.cc"
#include "larq_compute_engine/tflite/java/lce_ops_jni.cc"
#define main lce_minimal_main
#include "examples/lce_minimal.cc"
namespace spec {
namespace ce = compute_engine::tflite;
void ops(::tflite::MutableOpResolver* resolver, const bool use_reference_bconv, const bool use_indirect_bgemm) {
  TfLiteRegistration* conv = use_reference_bconv ? ce::Register_BCONV_2D_REF()
                             : use_indirect_bgemm ? ce::Register_BCONV_2D_OPT_INDIRECT_BGEMM() : ce::Register_BCONV_2D();
  resolver->AddCustom("LceQuantize", ce::Register_QUANTIZE());
  resolver->AddCustom("LceDequantize", ce::Register_DEQUANTIZE());
  resolver->AddCustom("LceBconv2d", conv);
  resolver->AddCustom("LceBMaxPool2d", ce::Register_BMAXPOOL_2D());
}
void selected(::tflite::MutableOpResolver* resolver) {
  ce::RegisterLCECustomOps(resolver, use_reference_bconv, use_indirect_bgemm);
}
std::unique_ptr<tflite::OpResolver> java() {
  auto resolver = new tflite::ops::builtin::BuiltinOpResolver();
  ce::RegisterLCECustomOps(resolver, false, false);
  return std::unique_ptr<tflite::ops::builtin::BuiltinOpResolver>(resolver);
}
int minimal(int argc, char* argv[]) {
  if (argc != 2) return 1;
  if (tflite::FlatBufferModel::BuildFromFile(argv[1]) == nullptr) exit(1);
  tflite::ops::builtin::BuiltinOpResolver resolver;
  ce::RegisterLCECustomOps(&resolver, false, false);
  return 0;
}
using namespace tflite::benchmark;
BenchmarkParams defaults() {
  BenchmarkParams p = BenchmarkTfLiteModel::DefaultParams();
  p.AddParam("use_reference_bconv", BenchmarkParam::Create<bool>(false));
  p.AddParam("use_indirect_bgemm", BenchmarkParam::Create<bool>(false));
  return p;
}
struct Model : public BenchmarkTfLiteModel {
  Model(BenchmarkParams params, bool& r, bool& i) : BenchmarkTfLiteModel(std::move(params)), use_reference_bconv(r), use_indirect_bgemm(i) {}
  TfLiteStatus Run(int argc, char** argv) override {
    TfLiteStatus s = ParseFlags(argc, argv);
    if (s != kTfLiteOk) return s;
    use_reference_bconv = params_.Get<bool>("use_reference_bconv");
    use_indirect_bgemm = params_.Get<bool>("use_indirect_bgemm");
    return BenchmarkTfLiteModel::Run();
  }
  TfLiteStatus Run() override;
  bool& use_reference_bconv;
  bool& use_indirect_bgemm;
};
}  // namespace spec
