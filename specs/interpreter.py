"""What the Python interpreter does with its inputs and with the native interpreter"""
import numpy as np
from tqdm import tqdm


def samples(x):
    if isinstance(x, np.ndarray):
        for inputs in x:
            yield [np.expand_dims(inputs, axis=0)]
    elif isinstance(x, list):
        for inputs in zip(*x):
            yield [np.expand_dims(one, axis=0) for one in inputs]
    elif hasattr(x, "__next__") and hasattr(x, "__iter__"):
        for inputs in x:
            if isinstance(inputs, np.ndarray):
                yield [np.expand_dims(inputs, axis=0)]
            else:
                yield [np.expand_dims(one, axis=0) for one in inputs]
    else:
        raise ValueError()


class Base:
    def __init__(self, interpreter):
        self.interpreter = interpreter

    def predict(self, x, verbose=0):
        it = samples(x)
        if verbose >= 1:
            it = tqdm(it)
        outputs = [np.concatenate(b) for b in zip(*(self.interpreter.predict(i) for i in it))]
        if len(self.interpreter.output_shapes) == 1:
            return outputs[0]
        return outputs


class Interpreter(Base):
    def __init__(self, flatbuffer_model, num_threads=1, use_reference_bconv=False, use_indirect_bgemm=False, use_xnnpack=False):
        from larq_compute_engine.tflite.python import interpreter_wrapper_lite
        super().__init__(interpreter_wrapper_lite.LiteInterpreter(flatbuffer_model, num_threads, use_reference_bconv, use_indirect_bgemm, use_xnnpack))
