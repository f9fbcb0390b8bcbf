"""Both ends of the custom-op interface against one table: the option maps the dialect ops write (keys, integer encodings), the custom ops the legalisation pass
creates (name, operands, results, option bytes), the dialect ops the reverse translation builds from them, the names and registrations of the runtime resolver,
the options the runtime ops read, and the operand order of the dialect definition."""
from common import *
from mlirc import *
import c04, c05, c24, gen_lq, fe
FLOOR = 10
ASSUMPTIONS = ['flexbuffers maps are unordered', 'builders take operands and attributes in the order of the op definition', 'only the padding and activation values the runtime supports are written']
OPS = {'QuantizeOp': 'LceQuantize', 'DequantizeOp': 'LceDequantize', 'Bconv2dOp': 'LceBconv2d', 'BMaxPool2dOp': 'LceBMaxPool2d'}
IN = {'QuantizeOp': ['x'], 'DequantizeOp': ['x'], 'BMaxPool2dOp': ['input'], 'Bconv2dOp': ['input', 'filter', 'post_activation_multiplier', 'post_activation_bias', 'output_threshold']}
STR = {'padding': {0: 'SAME', 1: 'VALID'}, 'fused_activation_function': {0: 'NONE', 1: 'RELU', 2: 'RELU_N1_TO_1', 3: 'RELU6'}}
PAD, ACT = list(STR['padding'].values()), list(STR['fused_activation_function'].values())


def entry(c):
    q, obj, args = c
    return (q.split('::')[-1],) + args if 'Int' in q or 'Float' in q or 'Bool' in q else (q.split('::')[-1], None)


def check(k):
    td = gen_lq.tbl(fe.REPO, fe.VERIF + '/stubs', LCE + 'mlir/ir/lce_ops.td')
    options(k)
    definition(k, td)
    legalise(k, td)
    translate(k, td)
    runtime(k)


def options(k):
    tu = k.spec('custom_options.cc', 'mlir')
    me = mk('sym', 'op')
    for op in ('Bconv2dOp', 'BMaxPool2dOp'):
        f = opt(k, tu, 'lq::%s::buildCustomOptions' % op)
        agree(k, 'options.' + op, 'every option the runtime reads is written under its key with the value and encoding of its own attribute', tu, f,
              k.fn(tu, 'spec::%s_options' % op), [], snames=['op'], this=me, calls=r'flexbuffers::Builder::(?!GetBuffer|Clear|GetSize)\w+$', callmap=entry, ret=False, mem=False, known=(re.compile('^str:'),),
              rules=[(r'getPadding', PAD, None), (r'getFused', ACT, None), (r'getPadValues', 0, 1)], n=2)


def definition(k, td):
    for op, names in IN.items():
        r = td.get('LQ_' + op)
        what = 'operands of %s are defined in the order the runtime reads them' % op
        if r is None:
            k.undecided('operands.' + op, what, 'op not defined in lce_ops.td')
            continue
        k.functions.add('lce_ops.td: LQ_' + op)
        got = [n for a, n in r['arguments']['args'] if 'Attr' not in td[a['def']]['!superclasses'] and 'AttrConstraint' not in td[a['def']]['!superclasses']]
        k.rule('operands.' + op, got == names if sorted(got) == sorted(names) else None, what, LCE + 'mlir/ir/lce_ops.td', 'defined as %s' % got)


def legalise(k, td):
    inc = '#include "larq_compute_engine/mlir/transforms/legalize_tflite.cc"\n'
    code = inc + 'namespace spec { using namespace mlir;\n'
    for op, nm in OPS.items():
        code += '''LogicalResult %s(lq::%s op, PatternRewriter& r) {
  std::vector<uint8_t> o = op.buildCustomOptions();
  r.replaceOpWithNewOp<TFL::CustomOp>(op, op->getResultTypes(), op->getOperands(), "%s", TFL::ConstBytesAttr::get(op->getContext(), std::string(o.begin(), o.end())));
  return success();
}\n''' % (op, op, nm)
    tu = k.spectext('legalize', code + '}\n', 'mlir')
    run, ev = pass_run(k, tu, 'CreateLegalizeLCEPass')
    what = 'every dialect op is translated to its custom op'
    if run is None:
        k.undecided('legalise', what, ev)
        return
    pats = registered(ev)
    site = '%s:%s' % (run['file'], run['line'])
    k.rule('legalise.applied', applied(ev), 'the legalisation patterns are applied', site)
    seen = {}
    for cls, g, line in pats:
        f = method(tu, cls, 'matchAndRewrite')
        m = f and re.search(r'lq::(\w+)', f['params'][0].get('type', ''))
        if m:
            seen[m.group(1)] = (f, g)
    known = all(method(tu, c, 'matchAndRewrite') for c, g, l in pats) and len(pats) > 0
    for op in OPS:
        if op not in seen:
            k.rule('legalise.' + op, False if known else None, what, site, 'no pattern for lq.%s is registered' % op)
            continue
        f, g = seen[op]
        k.rule('legalise.%s.registered' % op, g is TRUE or None, what, site)
        agree(k, 'legalise.' + op, 'the custom op has the registered name, the operands, the results and the option bytes of the dialect op', tu, f, k.fn(tu, 'spec::' + op),
              ['op', 'rewriter'], this=mk('sym', 'this'), calls=r'^\.(replaceOp|create)', callmap=rewriter, mem=False, known=(re.compile('^str:'),))


def translate(k, td):
    inc = '#include "larq_compute_engine/mlir/transforms/translate_tflite.cc"\n'
    code = inc + '''namespace spec { using namespace mlir;
llvm::StringRef padding(int v) { return v == 0 ? "SAME" : "VALID"; }
llvm::StringRef activation(int v) { return v == 0 ? "NONE" : v == 1 ? "RELU" : v == 2 ? "RELU_N1_TO_1" : "RELU6"; }
LogicalResult translate(TFL::CustomOp op, PatternRewriter& r) {
  auto data = op.getCustomOption().getValue();
'''
    for op, nm in OPS.items():
        code += '  if (op.getCustomCode() == "%s") {\n' % nm
        rec = td['LQ_' + op]
        if op in ('QuantizeOp', 'DequantizeOp'):
            code += '    r.replaceOpWithNewOp<lq::%s>(op, op->getResultTypes(), op->getOperands());\n' % op
        else:
            args = []
            for a, n in rec['arguments']['args']:
                if n in IN[op]:
                    args.append('op->getOperand(%d)' % IN[op].index(n))
                else:
                    v = 'm["%s"].AsInt32()' % n
                    args.append('padding(%s)' % v if n == 'padding' else 'activation(%s)' % v if n == 'fused_activation_function' else v)
            code += '    auto m = flexbuffers::GetRoot((uint8_t*)data.data(), data.size()).AsMap();\n    r.replaceOpWithNewOp<lq::%s>(op, op->getResultTypes(), %s);\n' % (op, ', '.join(args))
        code += '  }\n'
    tu = k.spectext('translate', code + '  return success();\n}\n}\n', 'mlir')
    run, ev = pass_run(k, tu, 'CreateTranslateToLCEPass')
    if run is None:
        k.undecided('translate', 'custom ops are translated back', ev)
        return
    k.rule('translate.applied', applied(ev), 'the translation patterns are applied', '%s:%s' % (run['file'], run['line']))
    fs = [method(tu, c, 'matchAndRewrite') for c, g, l in registered(ev) if g is TRUE]
    fs = [f for f in fs if f]
    if not fs and untouched(ev):
        k.violation('translate', 'custom ops are translated back', '%s:%s' % (run['file'], run['line']), 'no pattern is registered')
        return
    if len(fs) != 1:
        k.undecided('translate', 'custom ops are translated back', '%d patterns' % len(fs))
        return
    agree(k, 'translate', 'each custom op is translated to its dialect op with every operand and option in its own place', tu, fs[0], k.fn(tu, 'spec::translate'),
          ['op', 'rewriter'], this=mk('sym', 'this'), calls=r'^\.(replaceOp|create)', callmap=rewriter, mem=False, known=(re.compile('^str:'),), ret=False, n=3,
          rules=[(r'getCustomCode', list(OPS.values()) * 2 + ['Other'], None), (r'AsInt32.*\(padding\)', 0, 1), (r'AsInt32.*\(fused', 0, 3), (r'AsInt32', 0, 1000)])


def runtime(k):
    tu = k.spec('registration.cc')
    agree(k, 'runtime.names', 'the runtime registers every custom op under the name the converter gives it', tu, k.fn(tu, c24.OPS), k.fn(tu, 'spec::ops'),
          ['resolver', 'use_reference_bconv', 'use_indirect_bgemm'], calls='AddCustom', opaque=r'Register_\w+$', callmap=c24.registered, default=(0, 1), ret=False, mem=False, known=c24.KNOWN)
    c04.init(k, k.spec('bconv2d.cc'), 'runtime.options.conv')
    c05.init(k, k.spec('bmaxpool.cc'), 'runtime.options.pool')
