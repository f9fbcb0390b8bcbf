"""What the conversion entry points have to do with their arguments"""
import os
import tempfile
import warnings
from typing import Optional, Union

import tensorflow as tf
from larq_compute_engine.mlir._tf_tfl_flatbuffer import (
    convert_graphdef_to_tflite_flatbuffer,
    convert_saved_model_to_tflite_flatbuffer,
)
from larq_compute_engine.mlir.python.util import modify_integer_quantized_model_io_type
from tensorflow.core.framework.types_pb2 import DataType
from tensorflow.lite.python.util import get_tensor_name
from tensorflow.python.eager import def_function
from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_v2
from tensorflow.python.keras.saving import saving_utils
from tensorflow.python.saved_model import loader_impl

FAKE_QUANT = ("FakeQuantWithMinMaxVars", "FakeQuantWithMinMaxVarsPerChannel", "FakeQuantWithMinMaxArgs",
              "FakeQuantWithMinMaxArgsPerChannel", "QuantizeAndDequantizeV2", "QuantizeAndDequantizeV3")


def contains_training_quant_op(graph_def):
    return any(n.op in FAKE_QUANT for n in graph_def.node) or any(n.op in FAKE_QUANT for f in graph_def.library.function for n in f.node_def)


def validate(inference_input_type, inference_output_type, target, experimental_default_int8_range):
    if inference_input_type not in (tf.float32, tf.int8):
        raise ValueError()
    if inference_output_type not in (tf.float32, tf.int8):
        raise ValueError()
    if target not in ("arm", "xcore"):
        raise ValueError()
    if not tf.executing_eagerly():
        raise RuntimeError()


def convert_saved_model(
    saved_model_dir,
    *,
    inference_input_type=tf.float32,
    inference_output_type=tf.float32,
    target="arm",
    experimental_default_int8_range=None,
):
    validate(inference_input_type, inference_output_type, target, experimental_default_int8_range)
    path = str(saved_model_dir)
    version = loader_impl.parse_saved_model_with_debug_info(path)[0].saved_model_schema_version
    if version != 1 and version != 2:
        raise ValueError()
    data = convert_saved_model_to_tflite_flatbuffer(
        path, [tf.saved_model.SERVING], [tf.saved_model.DEFAULT_SERVING_SIGNATURE_DEF_KEY], version, target, experimental_default_int8_range)
    if inference_input_type != tf.float32 or inference_output_type != tf.float32:
        data = modify_integer_quantized_model_io_type(data, inference_input_type=inference_input_type, inference_output_type=inference_output_type)
    return data


def convert_keras_model(
    model,
    *,
    inference_input_type=tf.float32,
    inference_output_type=tf.float32,
    target="arm",
    experimental_default_int8_range=None,
):
    if not isinstance(model, tf.keras.Model):
        raise ValueError()
    if hasattr(model, "dtype_policy") and model.dtype_policy.name != "float32":
        raise ValueError()
    validate(inference_input_type, inference_output_type, target, experimental_default_int8_range)
    try:
        with tempfile.TemporaryDirectory() as path:
            model.save(path, save_format="tf")
            return convert_saved_model(path, inference_input_type=inference_input_type, inference_output_type=inference_output_type,
                                       target=target, experimental_default_int8_range=experimental_default_int8_range)
    except Exception:
        warnings.warn("")
    signature = None
    if not isinstance(model.call, def_function.Function):
        signature = saving_utils.model_input_signature(model, keep_original_batch_size=True)
    func = saving_utils.trace_model_call(model, signature).get_concrete_function()
    frozen = convert_variables_to_constants_v2(func, lower_control_flow=False)
    inputs = [t for t in frozen.inputs if t.dtype != tf.dtypes.resource]
    graph_def = frozen.graph.as_graph_def()
    quantize = contains_training_quant_op(graph_def) or experimental_default_int8_range is not None
    for t in inputs:
        shape = t.shape.as_list()
        if None in shape[1:]:
            raise ValueError()
        elif shape and shape[0] is None:
            static = t.shape.as_list()
            static[0] = 1
            t.set_shape(static)
    data = convert_graphdef_to_tflite_flatbuffer(
        graph_def.SerializeToString(),
        [get_tensor_name(t) for t in inputs],
        [DataType.Name(t.dtype.as_datatype_enum) for t in inputs],
        [t.shape.as_list() for t in inputs],
        [get_tensor_name(t) for t in frozen.outputs],
        quantize,
        target,
        experimental_default_int8_range)
    if quantize and (inference_input_type != tf.float32 or inference_output_type != tf.float32):
        data = modify_integer_quantized_model_io_type(data, inference_input_type=inference_input_type, inference_output_type=inference_output_type)
    return data
