#include "larq_compute_engine/mlir/ir/lce_ops.cc"
namespace spec {
using namespace mlir;
int padding(llvm::StringRef s) { return s == "SAME" ? 0 : 1; }
int activation(llvm::StringRef s) { return s == "NONE" ? 0 : s == "RELU" ? 1 : s == "RELU_N1_TO_1" ? 2 : 3; }
// keys as the runtime reads them; padding and activation in the encoding of the TFLite schema
std::vector<uint8_t> Bconv2dOp_options(lq::Bconv2dOp op) {
  flexbuffers::Builder b;
  b.Map([&]() {
    b.Int("stride_width", op.getStrideWidth());
    b.Int("stride_height", op.getStrideHeight());
    b.Int("dilation_width_factor", op.getDilationWidthFactor());
    b.Int("dilation_height_factor", op.getDilationHeightFactor());
    b.Int("channels_in", op.getChannelsIn());
    b.Int("pad_values", op.getPadValues());
    b.Int("padding", padding(op.getPadding()));
    b.Int("fused_activation_function", activation(op.getFusedActivationFunction()));
  });
  b.Finish();
  return b.GetBuffer();
}
std::vector<uint8_t> BMaxPool2dOp_options(lq::BMaxPool2dOp op) {
  flexbuffers::Builder b;
  b.Map([&]() {
    b.Int("stride_width", op.getStrideWidth());
    b.Int("stride_height", op.getStrideHeight());
    b.Int("filter_width", op.getFilterWidth());
    b.Int("filter_height", op.getFilterHeight());
    b.Int("padding", padding(op.getPadding()));
  });
  b.Finish();
  return b.GetBuffer();
}
}  // namespace spec
