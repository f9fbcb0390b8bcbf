// Reference pass sequences. Only the relations stated in rules/c18.py are required of the repository's sequence, not this very order.
#include "larq_compute_engine/mlir/tf_tfl_passes.cc"
namespace spec {
using namespace mlir;
using func::FuncOp;

inline void Pre(OpPassManager* pm) {
  pm->addNestedPass<FuncOp>(TFL::CreateRaiseCustomOpsPass(TFL::AllTfFakeQuantOps()));
  TF::StandardPipelineOptions o;
  o.enable_inliner = false;
  o.form_clusters = false;
  TF::CreateTFStandardPipeline(*pm, o);
  pm->addNestedPass<FuncOp>(TF::CreateDeviceIndexSelectorPass());
  pm->addPass(createCanonicalizerPass());
  pm->addPass(TF::CreateTFShapeInferencePass());
  pm->addPass(TF::CreateTFFunctionalControlFlowToRegions());
  pm->addNestedPass<FuncOp>(TFDevice::CreateDecomposeResourceOpsPass());
  pm->addPass(TF::CreateTFRegionControlFlowToFunctional());
}

inline void Post(llvm::StringRef dir, const quant::QuantizationSpecs& q, OpPassManager* pm, const LCETarget target) {
  pm->addPass(TFL::CreatePrepareCompositeFunctionsPass());
  pm->addPass(createInlinerPass());
  pm->addPass(createSymbolDCEPass());
  pm->addPass(TFL::CreateLowerStaticTensorListPass());
  pm->addPass(tf_saved_model::CreateOptimizeGlobalTensorsPass());
  pm->addNestedPass<FuncOp>(CreateSetBatchSizePass());
  pm->addPass(TF::CreateTFShapeInferencePass());
  pm->addPass(TFL::CreateLegalizeTFWhilePass());
  pm->addPass(createInlinerPass());
  pm->addNestedPass<FuncOp>(TFL::CreateOpRemovalPass());
  pm->addPass(tf_saved_model::CreateFreezeGlobalTensorsPass());
  if (!dir.empty()) pm->addPass(tf_saved_model::CreateFreezeAssetsPass(dir.str()));
  pm->addNestedPass<FuncOp>(TFL::CreateReduceWhileOperandsPass());
  pm->addNestedPass<FuncOp>(createCanonicalizerPass());
  pm->addNestedPass<FuncOp>(createCSEPass());
  pm->addPass(createSymbolDCEPass());
  pm->addPass(TF::CreateTFShapeInferencePass());
  TF::LayoutOptimizationPipelineOptions o;
  o.force_data_format = tensorflow::kTFLiteDataLayout;
  o.skip_fold_transpose_in_ops = true;
  TF::CreateLayoutOptimizationPipeline(pm->nest<FuncOp>(), o);
  pm->addNestedPass<FuncOp>(TFL::CreatePrepareLCEPass(target));
  pm->addNestedPass<FuncOp>(TFL::CreatePrepareTFPass(true, false));
  pm->addNestedPass<FuncOp>(createCanonicalizerPass());
  pm->addPass(TF::CreateTFShapeInferencePass());
  pm->addPass(createInlinerPass());
  pm->addNestedPass<FuncOp>(TF::CreateInitTextFileToImportPass(dir.str()));
  pm->addNestedPass<FuncOp>(TFL::CreateLegalizeTFPass(true));
  pm->addPass(TFL::CreateAnalyzeVariablesPass());
  pm->addPass(TFL::CreateLegalizeVariablesPass());
  pm->addPass(TFL::CreateLegalizeHashTablesPass());
  pm->addNestedPass<FuncOp>(TFL::CreateOptimizeLCEPass(target));
  pm->addNestedPass<FuncOp>(TFL::CreateOptimizePass(true));
  pm->addNestedPass<FuncOp>(TFL::CreateOptimizeLCEPass(target));
  pm->addNestedPass<FuncOp>(TFL::CreateBitpackWeightsLCEPass());
  pm->addPass(TFL::CreateOptimizeFunctionalOpsPass());
  std::vector<std::string> none({});
  pm->addNestedPass<FuncOp>(TFL::CreateRaiseCustomOpsPass(none));
  pm->addPass(createSymbolDCEPass());
  pm->addNestedPass<FuncOp>(createCanonicalizerPass());
  pm->addNestedPass<FuncOp>(createCSEPass());
  pm->addNestedPass<FuncOp>(TFL::CreateFusePaddingPass());
  if (q.RunPropagationAndRewriteQuantizationPasses() || q.qdq_conversion_mode != quant::QDQConversionMode::kQDQNone) {
    pm->addNestedPass<FuncOp>(TFL::CreatePrepareQuantizePass(q));
    pm->addNestedPass<FuncOp>(TFL::CreateLCEQuantizePass());
    if (q.default_ranges.first.has_value() || q.default_ranges.second.has_value()) {
      pm->addNestedPass<FuncOp>(TFL::CreateDefaultQuantParamsPass(q.default_ranges.first.value_or(0.0), q.default_ranges.second.value_or(0.0), q.IsSignedInferenceType()));
      pm->addNestedPass<FuncOp>(TFL::CreateLCEQuantizePass());
    }
    pm->addNestedPass<FuncOp>(TFL::QuantizeDetectionPostProcessPass());
    pm->addNestedPass<FuncOp>(TFL::CreateQuantizePass());
    bool adaptors = q.inference_type != q.inference_input_type;
    pm->addNestedPass<FuncOp>(TFL::CreatePostQuantizePass(adaptors));
    pm->addNestedPass<FuncOp>(TFL::CreateLCEQuantizePass());
    pm->addNestedPass<FuncOp>(TFL::CreatePostQuantizePass(adaptors));
    pm->addNestedPass<FuncOp>(TFL::CreateOptimizeOpOrderPass());
    pm->addNestedPass<FuncOp>(TFL::CreateOptimizePass(true));
    pm->addNestedPass<FuncOp>(TFL::CreatePostQuantizeRemoveQDQPass());
  }
  pm->addPass(createCanonicalizerPass());
  pm->addNestedPass<FuncOp>(TFL::CreateSplitMergedOperandsPass());
  pm->addPass(TFL::CreateInsertCallOnceOpFromSessionInitializerPass());
  pm->addPass(TFL::CreateUnfoldLargeSplatConstantPass());
  pm->addPass(TFL::CreateWhileOutlinePass());
  pm->addNestedPass<FuncOp>(TFL::CreateRuntimeVerifyPass());
  pm->addNestedPass<FuncOp>(TFL::CreateLegalizeLCEPass());
}
}  // namespace spec
