"""Effect summaries of the conversion entry points compared with the reference functions of specs/converter.py, and the facts of their signatures."""
from pyc import *
FLOOR = 4
ASSUMPTIONS = ['TensorFlow\'s functions do what their names say', 'warnings and messages of exceptions are not observable',
               'the fallback after a failed saved-model conversion is intended behaviour']
P = 'larq_compute_engine/mlir/python/converter.py'
SC = {'inference_input_type', 'inference_output_type', 'target', 'saved_model_schema_version', 'op', 'dtype', 'name', 'experimental_default_int8_range'}


def scalar(n):
    return True if n in SC else None


def check(k):
    kw = dict(scalar=scalar, byname=True, seq={'as_list'}, pure={'isinstance', 'hasattr', 'get_tensor_name', 'as_list', 'Name', 'SerializeToString', 'as_graph_def'})
    signature(k, P, 'convert_keras_model', 'converter.py', 'convert_keras_model')
    signature(k, P, 'convert_saved_model', 'converter.py', 'convert_saved_model')
    agree(k, 'quant_ops', 'a graph counts as quantised exactly when a node of it or of one of its functions is a fake-quantisation op', P,
          '_contains_training_quant_op', 'converter.py', 'contains_training_quant_op', scalar=scalar, need=False)
    agree(k, 'saved_model', 'arguments are validated, passed on in their own positions, and the result rewritten for the requested types', P,
          'convert_saved_model', 'converter.py', 'convert_saved_model', **kw)
    agree(k, 'keras_model', 'a Keras model is validated, saved and converted, or frozen and converted with its own names, types and shapes', P,
          'convert_keras_model', 'converter.py', 'convert_keras_model', **kw)
