"""Value graphs of the option maps, folds, builder and constant materialisation of the dialect ops compared with a specification; the folding functions themselves element by element."""
from common import *
from mlirc import *
import c14, c27
FLOOR = 6
ASSUMPTIONS = c27.ASSUMPTIONS + ['flexbuffers maps are unordered']


def check(k):
    c14.options(k)
    tu = k.spec('lceops.cc', 'mlir')
    me = mk('sym', 'op')
    for op in ('QuantizeOp', 'DequantizeOp'):
        f = opt(k, tu, 'lq::%s::fold' % op)
        agree(k, 'fold.' + op, 'the op folds exactly when its operand is constant, to the value the (un)packing function computes from it', tu, f, k.fn(tu, 'spec::%s_fold' % op.lower()[:-2]),
              ['adaptor'], snames=['op', 'adaptor'], this=me, opaque=r'TFL::(Bitpack|Unpack)$', mem=False, rules=[(r'null|bool', 0, 1)], default=(0, 1))
    agree(k, 'build', 'a quantize op has its operand and the packed shape of 32-bit integers', tu, opt(k, tu, 'lq::QuantizeOp::build'), k.fn(tu, 'spec::build'), ['builder', 'state', 'x'],
          calls=r'^\.add', mem=False, rules=[(r'#n', 1, 5), (r'#d', 1, 100)], ret=False)
    agree(k, 'materialize', 'folded constants become constant ops of their own value and type', tu, opt(k, tu, 'LarqDialect::materializeConstant'), k.fn(tu, 'spec::materialize'),
          ['builder', 'value', 'type', 'loc'], snames=['builder', 'value', 'type', 'loc'], this=mk('sym', 'this'), calls=r'^\.create', callmap=rewriter, mem=False)
    c27.folds(k)
