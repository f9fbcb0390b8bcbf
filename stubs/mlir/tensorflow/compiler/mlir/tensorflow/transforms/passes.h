#pragma once
#include "pass_stub.h"
namespace mlir { namespace TF {
struct StandardPipelineOptions { bool enable_inliner = false; bool form_clusters = false; };
struct LayoutOptimizationPipelineOptions { std::string force_data_format; bool skip_fold_transpose_in_ops = false; };
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& options); void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& options);
VERIF_PASS(CreateDeviceIndexSelectorPass) VERIF_MPASS(CreateTFShapeInferencePass) VERIF_MPASS(CreateTFFunctionalControlFlowToRegions) VERIF_MPASS(CreateTFRegionControlFlowToFunctional) VERIF_PASS(CreateInitTextFileToImportPass)
} namespace TFDevice { VERIF_PASS(CreateDecomposeResourceOpsPass) } }
