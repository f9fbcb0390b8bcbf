From fea6c24b525444497771fad8c3975e093efa38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 01/10] fix: rebuild the indirect BGEMM kernel when a
 convolution is prepared again

The kernel object caches the indirection table (pointers into the input
tensor), shapes and accumulator type of the first preparation. After an input
resize the next evaluation kept using them.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..7aa0409 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -295,6 +295,9 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // Prepare could be called multiple times; when the input tensor is resized,
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
+  // The indirect BGEMM kernel holds weights, shapes and input pointers of the
+  // previous shape, so it has to be rebuilt as well.
+  op_data->indirect_bgemm_kernel.reset();
 
   return kTfLiteOk;
 }
-- 
2.43.0


From 2a8405715aaa429048ddd83342548262d0039f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 02/10] fix: bound the 16-bit accumulators of the indirect
 kernels by the filter volume

The largest accumulator value is the number of filter taps times the channels
per group. The size of the input is no bound: with padding or dilation the
filter can cover more positions than the image has, and the 16-bit kernels
then overflow.
---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..ff6eb92 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,10 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width * bitpacked_input_shape.Dims(3) /
+      bconv2d_params->groups;
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0


From f888ed5fedd37ba90b437729eb053b7c172d5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 03/10] fix: refuse rank-zero tensors in quantize and
 dequantize preparation

---
 larq_compute_engine/tflite/kernels/quantization.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index 68b826d..8f11861 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -29,6 +29,8 @@ TfLiteStatus QuantizePrepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
 
   int num_dims = NumDimensions(input);
+  // There must be a last dimension to bitpack along
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   TfLiteIntArray* output_dims = TfLiteIntArrayCopy(input->dims);
@@ -54,6 +56,7 @@ TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
 
   int num_dims = NumDimensions(input);
 
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   // The first n-1 dimensions are equal
-- 
2.43.0


From cb3699ea11485bf881a2e6bf81d5f304af916079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 04/10] fix: correct zero padding when the image is smaller
 than the filter

---
 .../core/bconv2d/zero_padding_correction.h    | 56 +++++++++++++++----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..e9c9ee0 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -33,7 +33,9 @@ std::size_t GetCacheSize(const int filter_height, const int filter_width,
   const int effective_filter_width = (filter_width - 1) * dilation_cols + 1;
   const int effective_filter_height = (filter_height - 1) * dilation_rows + 1;
 
-  return 4 * effective_filter_height * effective_filter_width * filter_count;
+  // One table per case, followed by the correction of every single filter value
+  return 4 * effective_filter_height * effective_filter_width * filter_count +
+         filter_height * filter_width * filter_count;
 }
 
 void CacheCorrectionValues(const TBitpacked* filter_data,
@@ -83,8 +85,9 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
   //
   // So we could save this value for every tuple.
   // However (T) and (B) cannot be both true at the same time,
-  // and neither can (L) and (R) because we will assume that the (effective)
-  // filter size is always smaller than the image.
+  // and neither can (L) and (R) as long as the (effective) filter size is not
+  // larger than the image. For an image smaller than the filter we also cache
+  // the correction of each filter value, and sum those when applying it.
   //
   // We have the following cases:
   //
@@ -135,6 +138,16 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
             }
             float cur_correction = input_channels - 2 * popcount;
 
+            if (y == 0 && x == 0) {
+              const int tap_idx = 4 * effective_filter_height *
+                                      effective_filter_width * filter_count +
+                                  filter_y * (filter_width * filter_count) +
+                                  filter_x * filter_count + out_c;
+              output_cache[tap_idx] =
+                  -1.0f * post_activation_multiplier_data[out_c] *
+                  cur_correction;
+            }
+
             const int effective_filter_x = dilation_cols * filter_x;
             const int effective_filter_y = dilation_rows * filter_y;
             // Case 0: overflow_left = x; overflow_top = y
@@ -159,7 +172,7 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
           }
         }
 
-        // Output cache size:
+        // Output cache size (before the corrections of each filter value):
         // 4 * effective_height * effective_width * filter_count
         for (int direction = 0; direction < 4; ++direction) {
           int output_idx = direction * (effective_filter_height *
@@ -236,6 +249,12 @@ void ApplyCorrection(const int input_batches, const int input_height,
           if (new_out_x > out_x) out_x = new_out_x;
           continue;
         }
+        // Output shape is [batch, height, width, out_channels]
+        const int out_idx =
+            batch * output_height * output_width * filter_count +
+            out_y * output_width * filter_count + out_x * filter_count;
+        float* output_ptr = &output_data[out_idx];
+
         // See the `create_cache` function for an explanation of these cases
         int case_num;
         int cache_X;
@@ -259,7 +278,28 @@ void ApplyCorrection(const int input_batches, const int input_height,
           cache_X = (overflow_right >= 0 ? overflow_right : 0);
           cache_Y = overflow_bot;
         } else {
-          // This cannot happen.
+          // The filter is larger than the image and none of the cases applies:
+          // add up the corrections of the filter values that stick out.
+          const float* tap_ptr =
+              &padding_cache[4 * effective_filter_height *
+                             effective_filter_width * filter_count];
+          for (int filter_y = 0; filter_y < filter_height; ++filter_y) {
+            for (int filter_x = 0; filter_x < filter_width; ++filter_x) {
+              const int effective_filter_x = dilation_cols * filter_x;
+              const int effective_filter_y = dilation_rows * filter_y;
+              if (effective_filter_y < overflow_top ||
+                  effective_filter_height - effective_filter_y <=
+                      overflow_bot ||
+                  effective_filter_x < overflow_left ||
+                  effective_filter_width - effective_filter_x <=
+                      overflow_right) {
+                for (int out_c = 0; out_c < filter_count; ++out_c) {
+                  output_ptr[out_c] += tap_ptr[out_c];
+                }
+              }
+              tap_ptr += filter_count;
+            }
+          }
           continue;
         }
 
@@ -273,13 +313,7 @@ void ApplyCorrection(const int input_batches, const int input_height,
                                     effective_filter_width * filter_count) +
                         cache_Y * (effective_filter_width * filter_count) +
                         cache_X * filter_count;
-        // Output shape is [batch, height, width, out_channels]
-        const int out_idx =
-            batch * output_height * output_width * filter_count +
-            out_y * output_width * filter_count + out_x * filter_count;
-
         const float* cache_ptr = &padding_cache[cache_idx];
-        float* output_ptr = &output_data[out_idx];
 
         // Apply pre-computed correction
         // im2col padded the input with 0s which effectively became +1s.
-- 
2.43.0


From 5cb71729581faf51e9880f8954d328ed0bffadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 05/10] fix: keep tensors that are still used when changing
 model outputs and inputs

---
 larq_compute_engine/mlir/python/util.py | 34 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..f08c0cb 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,11 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _is_tensor_consumed(subgraph: tflite_schema.SubGraphT, tensor_idx) -> bool:
+    """Checks if any of the operators of the subgraph reads the tensor."""
+    return any(tensor_idx in op.inputs for op in subgraph.operators)
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -201,6 +206,17 @@ def modify_integer_quantized_model_io_type(
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
             remove_tensors_idxs.add(op.inputs[0])
             operators.remove(op)
+            # The input can only be replaced if nothing else depends on it.
+            if (
+                _is_tensor_consumed(subgraph, op.inputs[0])
+                or op.inputs[0] in subgraph.outputs
+            ):
+                raise ValueError(
+                    "Model input type can't be changed. The tensor with name '{}' is "
+                    "not only used by a single quantize operator.".format(
+                        subgraph.tensors[op.inputs[0]].name
+                    )
+                )
 
     # Modify model output type
     if inference_output_type == tf.int8:
@@ -212,8 +228,10 @@ def modify_integer_quantized_model_io_type(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its result is also used inside of the model.
+            if not _is_tensor_consumed(subgraph, op.outputs[0]):
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -301,8 +319,10 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its result is also used inside of the model.
+            if not _is_tensor_consumed(subgraph, op.outputs[0]):
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
         # Remove tensors marked for deletion.
         _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -358,8 +378,10 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-        remove_tensors_idxs.add(op.outputs[0])
-        operators.remove(op)
+        # Keep the operator if its result is also used inside of the model.
+        if not _is_tensor_consumed(subgraph, op.outputs[0]):
+            remove_tensors_idxs.add(op.outputs[0])
+            operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
-- 
2.43.0


From 22bd6e681f41173d57bffa07958ea81eff03ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 06/10] fix: only update the signatures of the subgraph whose
 tensors change

---
 larq_compute_engine/mlir/python/util.py | 26 +++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index f08c0cb..0c7bd60 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,17 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _get_signature_defs(
+    model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT
+):
+    """Finds the SignatureDefs that describe the subgraph."""
+    return [
+        signature_def
+        for signature_def in model.signatureDefs or []
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph
+    ]
+
+
 def _is_tensor_consumed(subgraph: tflite_schema.SubGraphT, tensor_idx) -> bool:
     """Checks if any of the operators of the subgraph reads the tensor."""
     return any(tensor_idx in op.inputs for op in subgraph.operators)
@@ -101,8 +112,7 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -199,8 +209,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -223,8 +232,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -314,8 +322,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -373,8 +380,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From 389d5a06d38eaca6997cc44e896e8409910863ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 07/10] fix: raise an error for inputs that are not numpy
 arrays instead of crashing

---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..a0e5ade 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,9 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    if (!nparray) {
+      PY_ERROR("Input " << i << " can not be converted to a numpy array");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From a4a7f1921ce70d63c7c14860293d8baa82006f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 08/10] fix: do not constant-fold (un)packing of tensors that
 are not 4D or of unsupported types

---
 larq_compute_engine/mlir/transforms/bitpack.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..9d9ac52 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -24,6 +24,9 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
 
+  // constant-folding is only supported for 4D tensors
+  if (shape.size() != 4) return nullptr;
+
   int num_rows = shape[0] * shape[1] * shape[2];
   int unpacked_channels = shape[3];
   int packed_channels = GetBitpackedSize(unpacked_channels);
@@ -65,6 +68,9 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   auto output_shape = result_type.getShape();
   auto output_type = result_type.getElementType();
 
+  // constant-folding is only supported for 4D tensors
+  if (input_shape.size() != 4 || output_shape.size() != 4) return nullptr;
+
   int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
   int unpacked_channels = output_shape[3];
   int packed_channels = GetBitpackedSize(unpacked_channels);
@@ -92,7 +98,9 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
 
     return DenseElementsAttr::get<float>(result_type, new_values);
   } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
+    auto quant_type = output_type.dyn_cast<mlir::quant::UniformQuantizedType>();
+    // constant-fold unpacking to other types is currently not supported
+    if (!quant_type) return nullptr;
     const double scale = quant_type.getScale();
     const int zero_point = quant_type.getZeroPoint();
 
-- 
2.43.0


From 926f251b4c44f9e9bdb90ac8bd836965ff88eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 09/10] fix: only turn a max-pool without fused activation into
 a binary max-pool

LceBMaxPool2d has no activation, so a ReLU fused into the float max-pool
(after which every value packs as +1) was silently dropped.
---
 .../mlir/transforms/optimize_patterns_target_arm.td             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..e1f01af 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -9,7 +9,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From a85cc14f75171c4c2da8997cbbe12a965bf8b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 10/10] fix: do not modify an input-only assembly operand when
 rounding on Thumb

---
 larq_compute_engine/core/bconv2d/output_transform.h | 7 ++++---
 larq_compute_engine/core/types.h                    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/output_transform.h b/larq_compute_engine/core/bconv2d/output_transform.h
index d4ec72c..002a080 100644
--- a/larq_compute_engine/core/bconv2d/output_transform.h
+++ b/larq_compute_engine/core/bconv2d/output_transform.h
@@ -33,9 +33,10 @@ inline std::int32_t round(float x) {
   // The `vcvtr` instructions follows the IEEE 754 rounding standard which
   // rounds halfway points to the nearest *even* integer.
   std::int32_t y;
-  asm("vcvtr.s32.f32 %[x], %[x] \n"
-      "vmov %[y], %[x] \n"
-      : [y] "=r"(y)
+  float tmp;
+  asm("vcvtr.s32.f32 %[tmp], %[x] \n"
+      "vmov %[y], %[tmp] \n"
+      : [y] "=r"(y), [tmp] "=t"(tmp)
       : [x] "t"(x));  // The "t" means `x` will be in an FPU register
   return y;
 #else
diff --git a/larq_compute_engine/core/types.h b/larq_compute_engine/core/types.h
index 24da7d4..43b6501 100644
--- a/larq_compute_engine/core/types.h
+++ b/larq_compute_engine/core/types.h
@@ -83,9 +83,10 @@ inline std::int32_t round(float x) {
   // The `vcvtr` instructions follows the IEEE 754 rounding standard which
   // rounds halfway points to the nearest *even* integer.
   std::int32_t y;
-  asm("vcvtr.s32.f32 %[x], %[x] \n"
-      "vmov %[y], %[x] \n"
-      : [y] "=r"(y)
+  float tmp;
+  asm("vcvtr.s32.f32 %[tmp], %[x] \n"
+      "vmov %[y], %[tmp] \n"
+      : [y] "=r"(y), [tmp] "=t"(tmp)
       : [x] "t"(x));  // The "t" means `x` will be in an FPU register
   return y;
 #else
-- 
2.43.0

