"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py
P: id -> (title, statement, over, quantified text, why tests cannot, files, mechanism[(name, where)], technique or None, level_note or not-applicable reason)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'larq_compute_engine/'
VG = 'gated value graphs of the function and of its specification (global value numbering, random interpretation of residual terms)'
ST = 'effect analysis of every object with static storage duration (who writes it, who reads it, what initialises it) and of Python module, class and default-argument state'
AS = 'effect and dataflow analysis of the inline assembly (instruction table, control-flow graph of each block and instantiation) against its operand and clobber lists'
BP = 'bit-provenance dataflow over the control-flow graph of the inline assembly; effect analysis against its operand and clobber lists; gated value graphs of the portable code around it'
PE = 'effect summaries of the function and of its specification (abstract interpretation of the syntax tree, random interpretation of residual conditions)'
TDP = 'rewrite patterns (expanded TableGen records) interpreted as equations over random element vectors; gated value graphs of the functions they call'
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))


p('C01', 'Portable bitpacking is canonical for every shape and type',
  'For every row count, channel count and element type, packing sets bit c%32 of word c/32 of a row exactly when element c of that row lies below the zero point (below zero for float), and clears every padding bit of the last word; unpacking restores the two given values bit for bit. Packed size is the channel count divided by 32 rounded up, and the row-wise and whole-tensor entry points produce this same layout.',
  ['inputs'], 'every rows x cols shape, element type, zero point and data',
  'The kernel tests are not buildable natively here and sample a handful of shapes; the layout must hold for every channel remainder and element value.',
  [L + 'core/bitpacking/bitpack.h', L + 'core/bitpacking/utils.h'],
  [('bitpack_bitfield / pack_bitfield', L + 'core/bitpacking/bitpack.h'), ('bitpack_matrix, bitpack_tensor, unpack_matrix', L + 'core/bitpacking/bitpack.h')],
  VG, 'Decides the packing, unpacking and size entry points of the portable code for every element type; the AArch64 assembly is C02.')
p('C02', 'AArch64 bitpacking assembly packs every lane into its own bit',
  'On AArch64 the vectorised packing path puts the sign of element c of each 128-element block into bit c%32 of output word c/32, for float and for 8-bit data with a zero point, reads and writes exactly the blocks it is given, and falls back to the portable path for remainders. Every register and flag the assembly writes is declared.',
  ['inputs'], 'every block content and zero point', 'No AArch64 hardware runs the tests here; lane order errors show on single bit positions only.',
  [L + 'core/bitpacking/bitpack_aarch64.h'], [('bitpack_aarch64_4x32', L + 'core/bitpacking/bitpack_aarch64.h'), ('pack_bitfield dispatch, bitpack_array', L + 'core/bitpacking/bitpack.h')],
  BP, 'Decides both assembly blocks for every number of blocks, and the code that calls them with the assembly replaced by what it was shown to do. The sign bit of a float stands for "below zero": negative zero is left out.')
p('C03', 'Quantize and dequantize ops agree on types, shapes and bit meaning',
  'The quantize op accepts exactly float, int8 and bool inputs of rank at least one and produces a packed int32 tensor whose last dimension is the packed channel count; the dequantize op is its inverse, producing scale- and zero-point-correct plus/minus one values for float and int8 and true/false for bool. Any other type or mismatched shape is refused in preparation instead of being processed.',
  ['inputs', 'configurations'], 'every tensor type, shape and quantisation parameters',
  'The op tests sample fixed shapes and are not part of the reliably passing set.',
  [L + 'tflite/kernels/quantization.cc'], [('QuantizePrepare, QuantizeEval, DequantizePrepare, DequantizeEval', L + 'tflite/kernels/quantization.cc')],
  VG, 'Decides preparation and evaluation of both registered ops. One defect found (rank-zero tensors) and fixed.')
p('C04', 'Binary convolution refuses malformed nodes and sizes outputs exactly',
  'Every option of the binary convolution is read from its own key, and a missing option or out-of-range padding value makes the node unusable. Preparation succeeds only when operand count, ranks, types, per-channel operand lengths, channel grouping, zero-padding support of the chosen kernel and int8 quantisation parameters are all consistent, and then gives the output and scratch tensors exactly the shape the convolution arithmetic implies.',
  ['inputs', 'configurations'], 'every option block, operand shape and type combination, and all three kernel variants',
  'Tests build well-formed nodes only; each malformed combination needs its own model file.',
  [L + 'tflite/kernels/bconv2d.cc'], [('Init', L + 'tflite/kernels/bconv2d.cc'), ('Prepare<kernel_type>', L + 'tflite/kernels/bconv2d.cc')],
  VG, 'Decides Init, Free and Prepare of the three kernel variants as functions of the option map, the tensors and the framework calls; integer overflow and the framework callees are assumptions.')
p('C05', 'Binary max pooling is the channelwise maximum over the valid window',
  'Binary max pooling reads its stride, filter and padding options from their own keys, prepares an output of the shape standard pooling arithmetic gives, and writes for each output position the bitwise AND over exactly those input positions of the window that lie inside the image. Inputs of any other rank or type are refused in preparation.',
  ['inputs', 'configurations'], 'every input, filter, stride and padding configuration',
  'The op tests sample a few geometries; border windows and unequal strides must hold for all.',
  [L + 'core/bmaxpool.h', L + 'tflite/kernels/bmaxpool.cc'], [('BMaxPool', L + 'core/bmaxpool.h'), ('Init, Prepare, Eval', L + 'tflite/kernels/bmaxpool.cc')],
  VG, 'Proved by syntactic identity of the canonical graphs on the current tree.')
p('C06', 'Re-preparing a convolution leaves nothing stale',
  'After a successful preparation, the first evaluation uses only the options, the current tensors and values derived from them: no padding correction, output transform, packed weights, indirection table or kernel object computed before that preparation can influence the result, however often inputs were resized and evaluated before.',
  ['histories'], 'every sequence of prepare and evaluate calls with arbitrary resizes in between',
  'Tests allocate once and run once; staleness needs resize, prepare and evaluate in sequence.',
  [L + 'tflite/kernels/bconv2d.cc'], [('one_time_setup_complete and indirect_bgemm_kernel handling', L + 'tflite/kernels/bconv2d.cc')],
  VG, 'Prepare followed by Eval is one value graph per kernel variant; cached per-node fields must not be inputs of it. One defect found (stale indirect kernel after resize) and fixed.')
p('C07', 'Fused output transform equals activation, scale and bias of the dot product',
  'For float and int8 outputs the transform of an accumulator equals post-multiplying and biasing the activated plus/minus-one dot product (rescaled by the output scale and zero point for int8, rounded to nearest and saturated); for packed outputs a bit is set exactly when the accumulator exceeds its channel threshold. The per-channel constants and clamps are derived once from the filter size per group, the fused activation and the operands.',
  ['inputs', 'configurations'], 'every accumulator value, channel, activation, group count and quantisation parameter',
  'Op tests compare sampled convolutions between two kernels that share this code, so a common error cancels.',
  [L + 'core/bconv2d/output_transform.h', L + 'tflite/kernels/bconv2d.cc'],
  [('OutputTransform::Run', L + 'core/bconv2d/output_transform.h'), ('OneTimeSetup, GetOutputTransform', L + 'tflite/kernels/bconv2d.cc')],
  VG, 'Decides the three transforms (host and 32-bit ARM code) and the derivation of their constants for the three kernel variants; arithmetic is real, ties of int8 rounding are free.')
p('C08', 'Reference convolution computes the binary convolution definition',
  'The reference kernel accumulates, for every batch, output position and channel, the popcount of the exclusive-or of the input and filter words over exactly the taps and channel group that belong to it; taps outside the image count as all plus-one bits when padding with ones, and contribute half of the tap\'s channels when padding with zeros; and it writes each output element (or packed bit) once, at its own index.',
  ['inputs', 'configurations'], 'every shape, stride, dilation, padding, group count and data',
  'It is the oracle of the other kernels\' tests; nothing tests it against an independent definition.',
  [L + 'core/bconv2d/reference.h'], [('BConv2DReference', L + 'core/bconv2d/reference.h')],
  VG, 'Decides the final contents of the output tensor for float, int8 and packed output against the definition, with every loop bound, stride, dilation, padding and group count symbolic; graphs that are not syntactically identical are separated by random interpretation.')
p('C09', 'Zero-padding correction removes exactly the padded taps\' contribution',
  'When a one-padded optimised kernel is used for zero padding, the correction subtracts for each border output element exactly the multiplied sum of plus/minus-one filter values at the taps that fall outside the image, and leaves interior elements unchanged. The cached table has the size that is later indexed, and its filling and its use agree on the meaning of each entry.',
  ['inputs', 'configurations'], 'every filter size, dilation, stride, image size and output channel count',
  'Tests sample small square filters; asymmetric filters, dilation and small images exercise different corner cases.',
  [L + 'core/bconv2d/zero_padding_correction.h'], [('CacheCorrectionValues, ApplyCorrection, GetCacheSize', L + 'core/bconv2d/zero_padding_correction.h')],
  VG, 'Caching and application are composed into one value graph and compared with the definition, so the cache layout is free. One defect found (image smaller than the filter) and fixed.')
p('C10', 'Kernel selection never picks a kernel whose limits the problem exceeds',
  'A 16-bit accumulator variant is used only when the largest possible accumulator value fits in 16 bits, a kernel specialised on a depth multiple only when the packed depth is such a multiple, and grouped problems only reach kernels that support them. Each output type and registration evaluates with its own kernel, handed the tensors, shapes and parameters of the node.',
  ['inputs', 'configurations'], 'every filter size, channel count, group count, output type and target platform',
  'Overflow needs very deep layers and the selection differs per platform; tests run on one host.',
  [L + 'core/indirect_bgemm/select_kernel.h', L + 'tflite/kernels/bconv2d.cc'],
  [('SelectRuntimeKernel', L + 'core/indirect_bgemm/select_kernel.h'), ('EvalChooseKernelType, EvalOptBGEMM, EvalOptIndirectBGEMM, EvalRef', L + 'tflite/kernels/bconv2d.cc')],
  VG, 'Decides the wiring of the three registered evaluation callbacks for host and 64-bit ARM, and that every kernel the factory can return covers the problem (accumulator width, depth multiple, groups).')
p('C11', 'Indirect convolution packs, indexes and computes consistently',
  'The indirect kernel\'s weight packing and indirection table address exactly the filter word and input pixel (or the shared zero row when outside the image) that the convolution definition demands for each output pixel, tap, group and block, with buffers large enough for every entry; and the portable micro-kernel combines them into the definition\'s accumulators and writes each output pixel\'s channels once.',
  ['inputs', 'configurations'], 'every shape, stride, dilation, padding, group count and remainder of the block sizes',
  'Remainder handling depends on channel and pixel counts modulo the block sizes; the tests sample few.',
  [L + 'core/indirect_bgemm/kernel.h', L + 'core/indirect_bgemm/kernel_4x2_portable.h', L + 'core/bconv2d/optimized_indirect_bgemm.h'],
  [('PackWeights, FillIndirectionBuffer, Dispatch', L + 'core/indirect_bgemm/kernel.h'), ('RunKernel', L + 'core/indirect_bgemm/kernel_4x2_portable.h')],
  VG, 'Decides weight packing, the indirection table, the portable micro-kernels for the three output types, and the function that runs them; the hand-written ARM kernels are outside (C92).')
p('C12', 'Matrix-multiplication path multiplies the matrices the convolution defines',
  'The optimised matrix path hands the multiplier the filter as left operand and the input (directly for pointwise convolutions, through an expansion filled with plus-one bits otherwise) as right operand with matching dimensions and layouts, its portable kernel returns the popcount of exclusive-or inner product passed once through the output transform per element, packed outputs group 32 channels per word, and zero-padding correction is applied exactly for zero padding.',
  ['inputs', 'configurations'], 'every shape, stride, dilation, padding and output type',
  'Tests compare sampled shapes on the host only.',
  [L + 'core/bconv2d/optimized_bgemm.h', L + 'core/bgemm/bgemm.h', L + 'core/bgemm/kernels.h', L + 'core/bgemm/ruy_pack.h', L + 'core/bgemm/ruy_trmul_params.h', L + 'core/bgemm/kernels_common.h'],
  [('BConv2DOptimizedBGEMM, im2col', L + 'core/bconv2d/optimized_bgemm.h'), ('BGemm, BgemmKernel', L + 'core/bgemm/bgemm.h')],
  VG, 'Decides the expansion and product set-up, the dispatch to ruy (packing, layouts, kernels) on the three builds, the portable kernels, the 4x4 packing and the parameter block of the assembly kernels; the assembly itself is outside (C92).')
p('C13', 'ARM assembly declares everything it modifies',
  'Every general register, vector register, flag and memory location that a hand-written ARM kernel modifies is an output operand or in its clobber list; no input-only operand is modified while its value can still be needed, no output shares a register with an input read after it, nothing is read before it is written, and the stack pointer is restored.',
  ['programs', 'configurations'], 'every assembly block, instruction and register of the 32- and 64-bit ARM kernels',
  'A missing clobber only shows when the surrounding compiler-chosen allocation happens to conflict, on hardware the tests here never run on.',
  [L + 'core/bgemm/kernels_arm32.h', L + 'core/bgemm/kernels_aarch64.h', L + 'core/indirect_bgemm/kernel_8x4x1_aarch64.h', L + 'core/indirect_bgemm/kernel_8x4x2_aarch64.h', L + 'core/indirect_bgemm/kernel_8x4x4_aarch64.h', L + 'core/bitpacking/bitpack_aarch64.h'],
  [('asm volatile blocks', L + 'core/bgemm/kernels_aarch64.h')],
  AS, 'Decides every assembly block of the 64-bit, 32-bit and Thumb builds in every instantiation; what the instructions compute is not part of it. One defect found (rounding helper on Thumb overwrites its input) and fixed.')
p('C14', 'Converter and runtime agree on op names, option keys and encodings',
  'Every custom op the converter can emit is registered in the runtime under the same name, every option the runtime requires is written by the converter under the same key with the same integer encoding of padding and activation, and no other option name is read. Operand order written and read is the same.',
  ['programs', 'configurations'], 'every dialect op, option key and enum value',
  'End-to-end tests need a full build; a renamed key shows up only when a converted model is loaded.',
  [L + 'mlir/ir/lce_ops.cc', L + 'mlir/ir/lce_ops.td', L + 'mlir/transforms/translate_tflite.cc', L + 'tflite/kernels/bconv2d.cc', L + 'tflite/kernels/bmaxpool.cc', L + 'tflite/kernels/lce_ops_register.h'],
  [('buildCustomOption', L + 'mlir/ir/lce_ops.cc'), ('RegisterLCECustomOps', L + 'tflite/kernels/lce_ops_register.h')],
  VG, 'Decides names, keys, value encodings and operand order on both sides; the values the attributes get are C15/C16.')
p('C15', 'Graph rewrite patterns feed each operand and attribute to its own slot',
  'Every declarative graph rewrite constructs its result with each bound operand and attribute in the slot of the same meaning: inputs, filters, multipliers, biases, strides, dilations, paddings and activations are neither swapped nor dropped, and values not matched keep their neutral default.',
  ['programs'], 'every input graph matched by a rewrite pattern',
  'Filecheck tests need the unbuildable full converter and mostly use equal strides and dilations.',
  [L + 'mlir/transforms/prepare_patterns_common.td', L + 'mlir/transforms/optimize_patterns_common.td', L + 'mlir/transforms/optimize_patterns_target_arm.td', L + 'mlir/transforms/quantize_patterns.td', L + 'mlir/transforms/bitpack_activations_patterns.td', L + 'mlir/transforms/bitpack_weights_patterns.td', L + 'mlir/transforms/fuse_padding.td', L + 'mlir/transforms/op_removal_patterns.td'],
  [('Pat records', L + 'mlir/transforms/prepare_patterns_common.td')], TDP, 'Decides the equation of every pattern; which pattern the driver prefers among several is not considered.')
p('C16', 'Fusions apply only where the graph\'s meaning is preserved',
  'A fusion into a binary convolution (activation, multiplication, addition, bias, padding, quantisation, packing of activations or weights) happens only if the intermediate value has a single use where required, its constants have the required shape and value, and the target accepts the result.',
  ['programs'], 'every input graph containing a fusable neighbourhood',
  'Negative cases (multiple uses, wrong padding or constants) are sampled by tests that cannot be run here.',
  [L + 'mlir/transforms/optimize_patterns_common.td', L + 'mlir/transforms/optimize.cc', L + 'mlir/transforms/prepare_tf.cc', L + 'mlir/transforms/fuse_padding.cc', L + 'mlir/transforms/bitpack_weights.cc', L + 'mlir/transforms/quantize_patterns.td'],
  [('Pat constraint lists and NativeCodeCall predicates', L + 'mlir/transforms/optimize_patterns_common.td')], TDP, 'Decides value preservation under the conditions, single use, target limits of the result and the predicate functions; 8-bit quantisation counts as the identity.')
p('C17', 'Bitpacked-output thresholds reproduce the sign of the fused output',
  'When a convolution\'s sign is packed directly, the threshold chosen per channel makes the packed bit equal to the sign of the activated, multiplied and biased result for every possible accumulator value, for positive, negative and zero multipliers and for each activation.',
  ['inputs', 'programs'], 'every multiplier, bias, activation, filter size and accumulator value',
  'Tests check constants for a few multipliers only.',
  [L + 'mlir/transforms/optimize.cc'], [('GetBitpackedOutputThresholds', L + 'mlir/transforms/optimize.cc')],
  VG, 'Decides the threshold of every channel as a function of filter size, multiplier, bias and activation; the place it is called from is C16.')
p('C18', 'Conversion runs its stages in the order their preconditions need',
  'For every conversion configuration the passes run in an order that respects their preconditions: binary ops are recognised before float rewrites can destroy them, packing happens after fusion, and translation to runtime ops comes last; each target-dependent stage receives the requested target.',
  ['configurations'], 'every combination of target, quantisation and debugging option',
  'Pass order errors only show on particular models with the full converter.',
  [L + 'mlir/tf_tfl_passes.cc'], [('AddPreVariableFreezingTFToLCETFLConversionPasses, AddPostVariableFreezingTFToLCETFLConversionPasses, AddQuantizationPasses', L + 'mlir/tf_tfl_passes.cc')],
  VG, 'Decides the stages, their settings, the conditions they run under and the order relations between them, and which generated pattern sets each pass applies for which target.')
p('C19', 'Conversion failures surface as errors, never as partial models',
  'Any failing import, pass, quantisation or export step makes the conversion return an error to the caller rather than a truncated or empty model, and an unsupported target or mode is rejected up front.',
  ['fault_sequences', 'programs'], 'every failing step of the conversion',
  'Failure injection into a converter run is not part of the tests.',
  [L + 'mlir/tf_to_tfl_flatbuffer.cc', L + 'mlir/python/common.cc', L + 'mlir/python/saved_model_tfl_flatbuffer.cc', L + 'mlir/python/graphdef_tfl_flatbuffer.cc'],
  [('ConvertTFExecutorToTFLOrFlatbuffer', L + 'mlir/tf_to_tfl_flatbuffer.cc')],
  VG, 'Decides, for every combination of failing steps, which steps run and what kind of status or exception results; that passes report their failures is assumed.')
p('C20', 'Batch-size setting rewrites exactly the dynamic leading dimensions',
  'Setting the batch size gives every function input of known rank whose leading dimension is dynamic a leading dimension of one and leaves all other dimensions, element types, inputs and functions unchanged, updating the block arguments and the function signature consistently.',
  ['programs'], 'every function signature', 'One lit test covers three signatures.',
  [L + 'mlir/transforms/set_batch_size.cc'], [('SetBatchSizePass', L + 'mlir/transforms/set_batch_size.cc')],
  VG, 'Decides the type transformation and its application to arguments and signature.')
p('C21', 'Python converter honours its arguments',
  'The Python conversion entry points reject unknown targets and input/output types before doing work, pass every argument to the native converter in its own position, remove temporary files, and deliver the converted bytes, rewritten for the requested types. When the saved-model conversion of a Keras model fails, the graph-based conversion runs with the same arguments and its errors reach the caller.',
  ['inputs', 'configurations', 'fault_sequences'], 'every argument combination',
  'The converter test mocks the native module for a single configuration.',
  [L + 'mlir/python/converter.py'], [('convert_keras_model, convert_saved_model', L + 'mlir/python/converter.py')],
  PE, 'Decides validation, the arguments of every call, their order and conditions, and the returned value of both entry points; what the native converter does with them is C28.')
p('C22', 'Input/output type surgery on converted models is consistent',
  'Changing a converted model\'s inputs or outputs to integer types removes exactly the boundary quantise or dequantise operators of the requested tensors, redirects graph inputs, outputs and signatures to the surviving tensors, checks that types match, and keeps every tensor that is still used and all other operators\' wiring. Stripping removes exactly the trailing dequantise operators.',
  ['inputs', 'programs'], 'every model graph and requested type combination',
  'The existing tests use one small model.',
  [L + 'mlir/python/util.py'], [('modify_integer_quantized_model_io_type, strip_lcedequantize_ops', L + 'mlir/python/util.py')],
  PE, 'Decides which operators, tensors and signature entries are changed or removed, under which conditions, to what. Two defects found (removal of tensors still used; signatures of other subgraphs) and fixed.')
p('C23', 'Python interpreter wrapper never hands out wrong or unchecked tensors',
  'Prediction checks the number, type and shape of every input before copying exactly its bytes, returns every output with the tensor\'s own type and shape, predicts each sample once and concatenates the results in order, reports types, shapes, scales and zero points of the tensors asked for, and turns every runtime failure into an exception. Construction passes the model, thread count and kernel options on in their own places.',
  ['inputs', 'histories', 'fault_sequences'], 'every model and input array',
  'No interpreter test runs here.',
  [L + 'tflite/python/interpreter_wrapper_utils.h', L + 'tflite/python/interpreter_wrapper_lite.cc', L + 'tflite/python/interpreter.py', L + 'tflite/python/interpreter_base.py'],
  [('predict, SetTensorFromNumpy, get_tensor', L + 'tflite/python/interpreter_wrapper_utils.h'), ('InterpreterBase.predict, data_generator', L + 'tflite/python/interpreter_base.py')],
  PE + '; ' + VG, 'Decides the Python classes, the native wrapper class and the binding between them. One defect found (crash on an input that is not convertible to an array) and fixed.')
p('C24', 'Registration selects the kernels asked for',
  'Registering the custom ops installs quantise, dequantise, convolution and max pooling under their names, choosing the reference convolution, the indirect one or the default optimised one exactly as the caller\'s flags say, in the library, the Java bindings, the benchmark and the examples alike; each registration\'s callbacks are those of its own op.',
  ['configurations'], 'every flag combination', 'Only one configuration is exercised by each test binary.',
  [L + 'tflite/kernels/lce_ops_register.h', L + 'tflite/kernels/bconv2d.cc', L + 'tflite/benchmark/lce_benchmark_tflite_model.cc', L + 'tflite/benchmark/lce_benchmark_main.cc', L + 'tflite/java/lce_ops_jni.cc', L + 'tflite/python/interpreter_wrapper_lite.cc'],
  [('RegisterLCECustomOps', L + 'tflite/kernels/lce_ops_register.h')],
  VG, 'Decides the installed registration per flag combination, the callbacks of each registration, and the flag wiring of the benchmark, the Java bindings and the example.')
p('C25', 'Detection post-processing quantisation keeps the op\'s meaning',
  'The detection post-processing rewrite touches exactly the TFLite_Detection_PostProcess ops with three dequantised inputs and four outputs of the expected element types. The new op takes the quantised values in the original order, keeps code, options, output shapes and the other three outputs, returns its scores quantised with the score input\'s scale and zero point, and every former output is replaced by its own successor, the scores dequantised back to the original type.',
  ['programs'], 'every graph around a custom op', 'Not exercised by tests runnable here.',
  [L + 'mlir/transforms/detection_postprocess.cc'], [('RemoveDequantizeBeforePostProcess, DetectionPostProcess', L + 'mlir/transforms/detection_postprocess.cc')],
  VG, 'Decides when the rewrite applies, the op it builds (operands, types, options) and the replacement of each output; whether the runtime op accepts quantised boxes is outside.')
p('C26', 'Dialect ops serialise, build and fold soundly',
  'Every dialect op serialises each of its attributes under its own key with its own value; a quantise op is built with its operand and a 32-bit integer result of the packed shape; quantise and dequantise fold exactly when their operand is constant, to the packed or unpacked values the runtime op would compute; and a folded constant becomes a constant op of its own value and type.',
  ['programs'], 'every op instance', 'Fold and serialisation of unusual attribute values and shapes are not sampled.',
  [L + 'mlir/ir/lce_ops.cc', L + 'mlir/transforms/bitpack.cc'], [('buildCustomOption, QuantizeOp::build, fold, materializeConstant', L + 'mlir/ir/lce_ops.cc')],
  VG, 'Decides option maps, builder, folders and constant materialisation as functions of operands, attributes and types.')
p('C27', 'Converter-side weight packing is the runtime layout and is invertible',
  'Weights packed at conversion time use the runtime\'s bit layout for every channel count, and the unpacking used for constant folding restores the sign values with the right type and shape.',
  ['inputs', 'programs'], 'every constant shape and content', 'Tests sample one shape.',
  [L + 'mlir/transforms/bitpack.cc', L + 'mlir/transforms/bitpack_weights.cc'], [('Bitpack, Unpack', L + 'mlir/transforms/bitpack.cc')],
  VG, 'Decides packing and unpacking of constants element by element and the filter predicate. One defect found (constants of other ranks and types) and fixed.')
p('C28', 'Conversion entry points forward every option to the right setting',
  'The graph-definition and saved-model entry points translate names, types, shapes, node lists, target, quantisation range and debugging flags into the conversion configuration position by position, and refuse unknown types, shapes and targets.',
  ['inputs', 'configurations'], 'every argument combination', 'Entry points are only reachable through a full TensorFlow build.',
  [L + 'mlir/python/common.cc', L + 'mlir/python/saved_model_tfl_flatbuffer.cc', L + 'mlir/python/graphdef_tfl_flatbuffer.cc', L + 'mlir/tf_to_tfl_flatbuffer.cc'],
  [('ConvertSavedModelToTFLiteFlatBuffer, ConvertGraphDefToTFLiteFlatBuffer', L + 'mlir/python/saved_model_tfl_flatbuffer.cc')],
  VG, 'Decides the arguments of every import, conversion and export call as functions of the entry point\'s arguments, and the exported names.')
p('C29', 'No state is shared between interpreters, nodes or conversions',
  'The result of preparing or evaluating a node, or of converting a model, depends only on that node, its tensors and the given options: no object of static storage, Python module variable, class attribute or mutable default argument carries a value from one interpreter, node, call or conversion to another.',
  ['histories', 'schedules'], 'every interleaving or sequence of interpreters, nodes and conversions in one process', 'A test process builds one model at a time and would see the state it left itself.',
  [L + 'core', L + 'tflite/kernels', L + 'mlir/transforms', L + 'mlir/python', L + 'tflite/python'],
  [('per-node OpData instead of statics', L + 'tflite/kernels/bconv2d.cc'), ('conversion configuration objects', L + 'mlir/tf_to_tfl_flatbuffer.cc')],
  ST, 'Enumerates every static-storage object and module-level binding of the analysed units and decides how each is written, read and initialised; state inside TFLite, MLIR and TensorFlow is theirs.')
p('C90', 'Converted models compute what the trained model computes',
  'For every supported model and input, running the converted model yields the results of the trained model up to float rounding.',
  ['inputs', 'programs'], 'every model and input', 'End-to-end tests cover a few models.',
  [L + 'mlir', L + 'tflite'], [('whole pipeline', L)], None,
  'End-to-end numerical equality quantifies over runtime values through TensorFlow and TFLite code outside the repository; its structural parts are the properties C01 to C28.')
p('C91', 'Concurrent interpreters and multithreaded kernels do not interfere',
  'Independent interpreters on different threads, and any thread count in one interpreter, give the same results.',
  ['schedules'], 'every schedule and thread count', 'Tests run single threaded.',
  [L + 'core/bgemm', L + 'tflite/python'], [('ruy thread pool', L + 'core/bgemm/bgemm.h')], None,
  'The repository holds no locks or threads of its own: scheduling is done inside ruy and TFLite, whose sources are not present, so there is no construct here to analyse.')
p('C92', 'ARM matrix kernels compute the same products as the portable kernel',
  'The hand-written ARM kernels return the portable kernel\'s accumulators for every packed operand.',
  ['inputs', 'programs'], 'every depth and operand content', 'No ARM hardware runs the tests.',
  [L + 'core/bgemm/kernels_aarch64.h', L + 'core/bgemm/kernels_arm32.h', L + 'core/indirect_bgemm/kernel_8x4x1_aarch64.h'], [('asm kernels', L + 'core/bgemm/kernels_aarch64.h')], None,
  'The software-pipelined loops carry values across iterations through registers and memory written by the assembly; deciding their arithmetic needs execution of the instruction semantics along paths, which is symbolic execution rather than static analysis. The declared-effects part is C13.')


def design(P):
    import ast
    out = []
    for q in P:
        out.append('### %s %s\n' % (q['id'], q['title']))
        f = V + '/rules/%s.py' % q['id'].lower()
        if not q['tech']:
            out.append('Not claimed: %s\n' % (q['note'] or 'no check yet.'))
            continue
        t = ast.parse(open(f).read())
        out.append(' '.join((ast.get_docstring(t) or '').split()) + ' ' + q['note'] + '\n')
        out.append('Why tests cannot: ' + q['why'] + '\n')
        for n in t.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
                xs = [c.value for c in ast.walk(n.value) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
                out.append('Assumed: ' + '; '.join(xs) + '.\n')
    d = open(V + '/DESIGN.md').read()
    a, rest = d.split('<!-- begin generated -->')
    b = rest.split('<!-- end generated -->')[1]
    open(V + '/DESIGN.md', 'w').write(a + '<!-- begin generated -->\n' + '\n'.join(out) + '<!-- end generated -->' + b)


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                                'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}}) + '\n')
    checks, na = [], []
    for q in P:
        assert len(q['title']) <= 80, q['id']
        if q['tech']:
            checks.append({'property': q['id'], 'quick_cmd': 'python3 engine/chk.py %s quick' % q['id'], 'thorough_cmd': 'python3 engine/chk.py %s thorough' % q['id'],
                           'technique': q['tech'], 'level': 'other', 'level_note': q['note'], 'evidence_file': 'evidence/%s.json' % q['id']})
        else:
            na.append({'property': q['id'], 'reason': q['note'] or 'No check yet.'})
    json.dump({'version': 1, 'setup_cmd': 'python3 engine/fe.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
    design(P)
    print(len(P), 'properties', len(checks), 'claimed')


main()
