"""Value graph of the detection post-processing rewrite compared with a specification: when it applies, and the ops it creates."""
from common import *
from mlirc import *
FLOOR = 1
ASSUMPTIONS = ['the runtime op takes and returns quantised scores of one scale and zero point']


def check(k):
    tu = k.spec('detection.cc', 'mlir')
    run, ev = pass_run(k, tu, 'QuantizeDetectionPostProcessPass')
    what = 'detection post-processing takes quantised inputs'
    if run is None:
        k.undecided('pass', what, ev)
        return
    site = '%s:%s' % (run['file'], run['line'])
    k.rule('applied', applied(ev), 'the pattern is applied', site)
    fs = [f for f in (method(tu, c, 'matchAndRewrite') for c, g, l in registered(ev) if g is TRUE) if f]
    if not fs and untouched(ev):
        k.violation('rewrite', what, site, 'no pattern is registered')
        return
    if len(fs) != 1:
        k.undecided('rewrite', what, '%d patterns' % len(fs))
        return
    agree(k, 'rewrite', 'the rewrite applies exactly to an op with three dequantised inputs and four outputs of the expected types, keeps its options, shapes and other outputs, and dequantises the quantised scores', tu, fs[0],
          k.fn(tu, 'spec::rewrite'), ['op', 'rewriter'], this=mk('sym', 'this'), calls=r'^\.(replaceOp|create|erase|replaceAll)', callmap=rewriter, mem=False, known=(re.compile('^str:'),), n=3,
          rules=[(r'getCustomCode', ['TFLite_Detection_PostProcess'] * 9 + ['Other'], None), (r'isnull', 0, 0, 1, 1, 6), (r'getInput.*#n|size.*getInput', 3, 3, 2, 4, 6), (r'getOutput.*#n|size.*getOutput', 4, 4, 3, 5, 6),
                 (r'getElementType.*getOutput.*2\)+$', 132, 132, 32, 132, 10), (r'getElementType.*getOutput', 32, 32, 32, 132, 10), (r'getF32Type', 132, 132), (r'getIntegerType.*32', 32, 32), (r'null|dyn|bool', 0, 0, 1, 1, 8)])
