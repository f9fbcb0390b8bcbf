"""What changing the types of the model inputs and outputs has to do to the serialised model"""
import copy

import flatbuffers
import tensorflow as tf

from larq_compute_engine.mlir.python import tflite_schema


def load(data):
    m = copy.deepcopy(tflite_schema.ModelT.InitFromObj(tflite_schema.Model.GetRootAsModel(data, 0)))
    m.subgraphs[0].inputs[0] = m.subgraphs[0].inputs[0]
    return m


def store(m):
    builder = flatbuffers.Builder(1024)
    builder.Finish(m.Pack(builder), file_identifier=b"TFL3")
    return bytes(builder.Output())


def signatures(model, subgraph):
    return [s for s in model.signatureDefs or [] if model.subgraphs[s.subgraphIndex] is subgraph]


def remove_tensors(model, subgraph, gone):
    """every reference to a tensor is replaced by the index it has once the tensors are gone"""
    if not gone:
        return
    n = len(subgraph.tensors)
    if min(gone) == n - len(gone):
        del subgraph.tensors[min(gone):]
        return
    new = {i: i - len([j for j in range(n) if j in gone and j < i]) for i in range(len(subgraph.tensors)) if i not in gone}
    for i in range(len(subgraph.inputs)):
        subgraph.inputs[i] = new.get(subgraph.inputs[i], -1)
    for i in range(len(subgraph.outputs)):
        subgraph.outputs[i] = new.get(subgraph.outputs[i], -1)
    for op in subgraph.operators:
        for i in range(len(op.inputs)):
            op.inputs[i] = new.get(op.inputs[i], -1)
        for i in range(len(op.outputs)):
            op.outputs[i] = new.get(op.outputs[i], -1)
    for s in signatures(model, subgraph):
        for m in s.inputs:
            if m.tensorIndex in new:
                m.tensorIndex = new[m.tensorIndex]
        for m in s.outputs:
            if m.tensorIndex in new:
                m.tensorIndex = new[m.tensorIndex]
    for i in sorted(gone, reverse=True):
        subgraph.tensors.pop(i)


def codes(model, builtin):
    """the position of the operator code, None when the model has none"""
    r = None
    for i, c in enumerate(model.operatorCodes):
        if c.builtinCode == builtin:
            r = i
    return r


def distinct(model):
    assume(not any(a.builtinCode == b.builtinCode for j, b in enumerate(model.operatorCodes) for i, a in enumerate(model.operatorCodes) if i < j))


def modify(model, inference_input_type=tf.float32, inference_output_type=tf.float32):
    m = load(model)
    distinct(m)
    g = m.subgraphs[0]
    quant, dequant = codes(m, tflite_schema.BuiltinOperator.QUANTIZE), codes(m, tflite_schema.BuiltinOperator.DEQUANTIZE)
    if quant is None and dequant is None:
        raise ValueError()
    first, last = [], []
    for op in g.operators:
        if op.opcodeIndex == quant and op.inputs[0] in g.inputs:
            outer, inner = g.tensors[op.inputs[0]], g.tensors[op.outputs[0]]
            first.append(op)
        elif op.opcodeIndex == dequant and op.outputs[0] in g.outputs:
            outer, inner = g.tensors[op.outputs[0]], g.tensors[op.inputs[0]]
            last.append(op)
        else:
            continue
        if outer.type != tflite_schema.TensorType.FLOAT32 or inner.type != tflite_schema.TensorType.INT8:
            raise ValueError()
    gone = set()
    if inference_input_type == tf.int8:
        for op in first:
            g.inputs[g.inputs == op.inputs[0]] = op.outputs[0]
            for s in signatures(m, g):
                for x in s.inputs:
                    if x.tensorIndex == op.inputs[0]:
                        x.tensorIndex = op.outputs[0]
            gone.add(op.inputs[0])
            g.operators.remove(op)
            if any(op.inputs[0] in o.inputs for o in g.operators) or op.inputs[0] in g.outputs:
                raise ValueError()
    if inference_output_type == tf.int8:
        for op in last:
            g.outputs[g.outputs == op.outputs[0]] = op.inputs[0]
            for s in signatures(m, g):
                for x in s.outputs:
                    if x.tensorIndex == op.outputs[0]:
                        x.tensorIndex = op.inputs[0]
            if not any(op.outputs[0] in o.inputs for o in g.operators):
                gone.add(op.outputs[0])
                g.operators.remove(op)
    remove_tensors(m, g, gone)
    return store(m)


def strip(model):
    m = load(model)
    distinct(m)
    for g in m.subgraphs:
        strip_subgraph(m, g)
    return store(m)


def strip_outputs(m, g, code, isfloat, isint):
    last = []
    for op in g.operators:
        if op.opcodeIndex == code and op.outputs[0] in g.outputs:
            last.append(op)
            if not isfloat(g.tensors[op.outputs[0]].type) or not isint(g.tensors[op.inputs[0]].type):
                raise ValueError()
    gone = set()
    for op in last:
        g.outputs[g.outputs == op.outputs[0]] = op.inputs[0]
        for s in signatures(m, g):
            for x in s.outputs:
                if x.tensorIndex == op.outputs[0]:
                    x.tensorIndex = op.inputs[0]
        if not any(op.outputs[0] in o.inputs for o in g.operators):
            gone.add(op.outputs[0])
            g.operators.remove(op)
    remove_tensors(m, g, gone)


def strip_codes(m):
    lce, dequant = None, None
    for i, c in enumerate(m.operatorCodes):
        if c.customCode == b"LceDequantize":
            lce = i
        elif c.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
            dequant = i
        if lce is not None and dequant is not None:
            break
    return lce, dequant


def strip_subgraph(m, g):
    lce, dequant = strip_codes(m)
    if lce is None and dequant is None:
        raise ValueError()
    T = tflite_schema.TensorType
    if dequant is not None:
        strip_outputs(m, g, dequant, lambda t: t == T.FLOAT32, lambda t: t == T.INT8)
    strip_outputs(m, g, lce, lambda t: t == T.FLOAT32 or t == T.INT8, lambda t: t == T.INT32)


def strip_subgraph_lce(m, g):
    """models without dequantize operators"""
    lce, dequant = strip_codes(m)
    assume(dequant is None)
    strip_subgraph(m, g)
