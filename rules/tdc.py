"""Interpretation of declarative rewrite patterns (llvm-tblgen's expanded records).

A pattern is read as the equation `matched expression = constructed expression` under its conditions.  Both sides are given the meaning of their operations over random
element vectors: elementwise operations exactly, a convolution as an uninterpreted functional that is linear in its filter, pooling as the maximum over an uninterpreted window.
The conditions restrict the sampled values.  What the operators mean does not depend on how a pattern is spelled (names, classes, order)."""
import hashlib, itertools, random, re
from fractions import Fraction
import fe, gen_lq

N = 24
TR = 'larq_compute_engine/mlir/transforms/'
ACTS = ['NONE', 'RELU', 'RELU6', 'RELU_N1_TO_1']
BOUND = {'NONE': (None, None), 'RELU': (0, None), 'RELU6': (0, 6), 'RELU_N1_TO_1': (-1, 1)}
CONV = ('input', 'filter', 'post_activation_multiplier', 'post_activation_bias', 'output_threshold')


class Und(Exception):
    pass


class Infeasible(Exception):
    """the sampled values do not satisfy the conditions"""


def hsh(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=6).digest(), 'big')


class T:
    """tensor: kind f / b (bool) / P (packed; True = below zero) / none, element values, shape class, structure"""
    def __init__(self, kind, v, shape=None, pad=None, thr=None, const=False, scale=None, sign=None, perm=None, of=None):
        self.kind, self.v, self.shape, self.pad, self.thr, self.const, self.scale, self.sign, self.perm, self.of = kind, tuple(v), shape, pad, thr, const, scale, sign, perm, of

    @property
    def id(self):
        return (self.kind, self.v)

    def __repr__(self):
        return '%s%s' % (self.kind, list(map(str, self.v[:4])))


NONE = T('none', ())


def act(a, x):
    if a not in BOUND:
        return Fraction(hsh('act', a, x) % 97 - 48, 7)
    lo, hi = BOUND[a]
    return lo if lo is not None and x < lo else hi if hi is not None and x > hi else x


def num(t):
    if t.kind == 'f':
        return t.v
    if t.kind == 'b':
        return tuple(Fraction(int(x)) for x in t.v)
    if t.kind == 'P':
        raise Infeasible                  # ill-typed: no arithmetic on packed values
    raise Und('arithmetic on a %s tensor' % t.kind)


def ew(f, *ts):
    return T('f', [f(*xs) for xs in zip(*[num(t) for t in ts])], const=all(t.const for t in ts), shape=bshape(*ts))


ORDER = {'scalar': 0, 'channel': 1, 'full': 2, None: 2}


def divide(x, y):
    if y == 0:
        raise Infeasible
    return x / y


def bshape(*ts):
    return max((t.shape for t in ts), key=lambda s: ORDER.get(s, 2))


def opaque(kind, *a):
    if kind == 'b' or kind == 'P':
        return T(kind, [hsh(a, i) % 2 == 0 for i in range(N)])
    return T('f', [Fraction(hsh(a, i) % 41 - 20, 1 + hsh(a, i, 'd') % 3) for i in range(N)])


class TD:
    def __init__(self, path):
        self.path = path
        self.d = gen_lq.tbl(fe.REPO, fe.VERIF + '/stubs', path)
        self.names = [n for n in self.d['!instanceof'].get('Pattern', [])]
        self.locs = gen_lq.locations(fe.REPO, fe.VERIF + '/stubs', path)

    def sup(self, n):
        return self.d[n].get('!superclasses', []) if n in self.d else []

    def slots(self, op):
        return [(a['def'], n) for a, n in self.d[op]['arguments']['args']]

    def isop(self, n):
        return 'Op' in self.sup(n)

    def pred(self, n):
        """C++ text of a constraint"""
        p = self.d[n].get('predicate')
        if not p:
            return None
        return self.ptext(p['def'])

    def ptext(self, n):
        r = self.d[n]
        if r.get('predExpr') is not None:
            return ' '.join(r['predExpr'].split())
        kids = [self.ptext(c['def']) for c in r.get('children', [])]
        kind = r.get('kind', {}).get('def', '') if isinstance(r.get('kind'), dict) else ''
        j = {'PredCombinerAnd': ' && ', 'PredCombinerOr': ' || '}.get(kind)
        if j:
            return j.join('(%s)' % x for x in kids)
        return '%s(%s)' % (kind, ','.join(kids))


NEUTRAL = re.compile(r'^(\s|true|\(|\)|&&)*$')


class Pattern:
    def __init__(self, td, name):
        self.td, self.name, self.r = td, name, td.d[name]
        self.loc = td.locs.get(name, '')
        if self.r.get('supplementalPatterns'):
            raise Und('supplemental patterns')
        self.src = self.r['sourcePattern']
        self.res = self.r['resultPatterns']
        self.cons = self.r['constraints']
        self.ops = []                 # (path, op, bound name) of matched operations, root first
        self.consts = 0
        self.collect(self.src, ())

    def collect(self, dag, path):
        op = dag['operator']['def']
        if not self.td.isop(op):
            raise Und('matches through %s' % op)
        self.ops.append((path, op, dag.get('name')))
        slots = self.td.slots(op)
        if len(dag['args']) != len(slots):
            raise Und('%s matched with %d arguments' % (op, len(dag['args'])))
        for i, (a, nm) in enumerate(dag['args']):
            if isinstance(a, dict) and a.get('kind') == 'dag':
                if self.td.isop(a['operator']['def']):
                    self.collect(a, path + (i,))
                else:
                    raise Und('matches through %s' % a['operator']['def'])

    def title(self):
        def text(dag):
            op = dag['operator']['def']
            return re.sub(r'Op$', '', op.split('_', 1)[-1]) + '(' + ', '.join(x for x in [text(a) for a, _ in dag['args'] if isinstance(a, dict) and a.get('kind') == 'dag' and a['operator']['def'] != 'Arith_ConstantOp'] if x) + ')'
        return text(self.src).replace('()', '')


class Run:
    """one sampled interpretation of a pattern"""
    def __init__(self, pat, seed, wide=False):
        self.p, self.td, self.wide = pat, pat.td, wide
        self.rng = random.Random(hsh(pat.name, seed))
        self.env = {}
        self.facts = []
        self.defs = {}

    # -- leaves of the source
    def leaf(self, op, slot, kind):
        r = self.rng
        if op == 'LQ_Bconv2dOp':
            if slot in ('dilation_height_factor', 'dilation_width_factor', 'stride_height', 'stride_width'):
                return r.randint(1, 4)
            if slot == 'channels_in':
                return r.choice([3, 32, 64, 65])
            if slot == 'pad_values':
                return r.randint(0, 1)
        if slot.startswith(('stride', 'dilation', 'filter_', 'depth_m')) and kind == 'attr' and op != 'TF_Conv2DOp':
            return r.randint(1, 4)
        if slot in ('strides', 'dilations') and kind == 'attr':
            return (1, r.randint(1, 4), r.randint(1, 4), 1) if r.random() < .5 else tuple(r.randint(1, 3) for _ in range(4))
        if slot == 'fused_activation_function':
            return r.choice(ACTS)
        if slot == 'padding' and kind == 'attr':
            return r.choice(['SAME', 'VALID'] + (['EXPLICIT'] if op.startswith('TF_') else []))
        if slot == 'data_format':
            return r.choice(['NHWC', 'NCHW'])
        if kind == 'attr':
            return ('attr', op, slot, r.randint(0, 3))
        if op == 'LQ_Bconv2dOp' and slot == 'input' or op == 'LQ_DequantizeOp':
            return T('P', [r.random() < .5 for _ in range(N)], shape='full')
        if op == 'LQ_Bconv2dOp' and slot == 'output_threshold':
            return NONE if r.random() < .7 else T('f', [Fraction(r.randint(-5, 5)) for _ in range(N)], shape='channel')
        if op == 'TF_AddV2Op' and not self.wide:     # the offset that keeps a sign from being zero
            return T('f', [Fraction(r.randint(1, 9), 10)] * N, shape='scalar')
        if slot in ('cond', 'condition'):
            return T('b', [r.random() < .5 for _ in range(N)], shape='full')
        return self.tensor('channel' if op == 'LQ_Bconv2dOp' and slot in ('post_activation_multiplier', 'post_activation_bias') else 'filter' if slot == 'filter' else 'full')

    def tensor(self, shape):
        r = self.rng
        v = [Fraction(r.choice([-9, -7, -4, -3, -2, -1, 1, 2, 3, 5, 6, 8]), r.choice([1, 1, 2, 4])) if r.random() < .95 else Fraction(0) for _ in range(N)]
        if shape in ('full', 'channel', 'scalar'):
            pass
        if shape == 'scalar':
            v = [v[0]] * N
        return T('f', v, shape=shape)

    # -- conditions
    def constrain(self, cname, val, op, slot):
        """value of an attribute leaf that satisfies constraint cname (val: the unconstrained sample)"""
        d, sup = self.td.d[cname], self.td.sup(cname)
        if 'ConstantAttr' in sup:
            return self.constval(d, cname)
        if cname == 'UnitAttr':
            return 'unit'
        p = self.td.pred(cname)
        if p is None:
            return val
        if 'Attr' in sup and not re.search(r'Is|Valid|has', p):
            return val                      # attribute kinds
        return self.predicate(p, {'_self': val}, attr=True)

    def constval(self, d, cname):
        v = d['value']
        s = v.strip()
        if s.startswith('"'):
            return s.strip('"')
        if s in ('true', 'false'):
            return s == 'true'
        if re.match(r'^-?\d+$', s):
            return int(s)
        if s.startswith('{'):
            return tuple(int(x) for x in s.strip('{}').split(','))
        return ('const', s)

    def predicate(self, p, args, attr=False):
        """restrict (attr) or check the arguments of a condition; known conditions only"""
        p = re.sub(r'\s+', '', p)
        while p.startswith('(') and self.close(p) == len(p) - 1:
            p = p[1:-1]
        if NEUTRAL.match(p):
            return args.get('_self')
        parts = self.split(p, '||')
        if len(parts) > 1:
            return self.predicate(self.rng.choice(parts), args, attr)
        if p.startswith('!'):
            q = p[1:]
            while q.startswith('(') and self.close(q) == len(q) - 1:
                q = q[1:-1]
            if re.match(r'^\$\w+\.(hasOneUse|use_empty)\(\)$|^(IsBinaryFilter|HasValidFilterShape|IsSamePadding|IsSamePaddingPartial|NoBatchAndChannelPadding|IsConstantValue)\([^()]*\)$', q):
                return args.get('_self')                # a condition that rules little out
            raise Und('condition %s' % p)
        parts = self.split(p, '&&')
        if len(parts) > 1:
            v = None
            keep = [x for x in parts if not re.match(r'^\(?\$(_self|\d)\.isa<[\w:]*>\(\)\)?$', x)]
            if len(keep) > 1:
                one = self.single(keep)
                if one is not None:
                    return self.is_const(args, one[0], one[1], True)
            for x in keep:
                v = self.predicate(x, args, attr)
            return v if keep else args.get('_self')
        one = self.single([p])
        if one is not None and one[2]:
            raise Und('condition %s' % p)
        m = re.match(r'^IsConstantValue\((\$\w+),(-?[\d.]+)f?\)$', p)
        if m:
            return self.is_const(args, m.group(1)[1:], Fraction(m.group(2)), False)
        m = re.match(r'^(\w+)\((.*)\)$', p)
        f, xs = (m.group(1), self.split(m.group(2), ',')) if m else (None, [])
        vals = [args[x[1:]] if re.match(r'^\$\w+$', x) else x for x in xs]
        if f == 'TFIntListIs1XY1':
            v = vals[0]
            return (1, v[1], v[2], 1) if isinstance(v, tuple) and len(v) == 4 else v
        if f == 'IsBinaryFilter':
            return self.fact('binary', vals[0])
        if f == 'HasValidFilterShape':
            return self.fact('filtershape', *vals)
        if f in ('IsSamePadding', 'IsSamePaddingPartial'):
            return self.fact('same' if f == 'IsSamePadding' else 'same%s' % vals[4], *vals[:4])
        if f == 'NoBatchAndChannelPadding':
            return self.fact('spatial', vals[0])
        if f == 'IsConv2DFilter':
            return vals[0]
        m = re.match(r'^\$(\w+)\.hasOneUse\(\)$|^(?:llvm::)?hasSingleElement\(\$(\w+)\.get(?:Uses|Users)\(\)\)$', p)
        if m:
            return self.fact('oneuse', args[m.group(1) or m.group(2)])
        if re.match(r'^\$_self\.cast<ElementsAttr>\(\)\.getShapedType\(\)\.getElementType\(\)\.isF32\(\)$', p) or re.match(r'^\$_self\.isa<[\w:]+>\(\)$', p):
            return args['_self']
        raise Und('condition %s' % p)

    def single(self, parts):
        """one-element constant compared with a value: (arg, value, alone)"""
        val = arg = None
        n = False
        for x in parts:
            m = re.match(r'^\*?\$(\w+)\.cast<DenseElementsAttr>\(\)\.getValues<float>\(\)(?:\.begin\(\)|\[0\]|\[\{0\}\])(==|!=|<=|>=|<|>)\(?(-?[\d.]+)f?\)?$', x)
            if m:
                arg, val = m.group(1), Fraction(m.group(3))
                d = Fraction(self.rng.randint(1, 6), 3)
                val += {'==': 0, '!=': self.rng.choice([-d, d]), '<': -d, '>': d, '<=': self.rng.choice([-d, 0]), '>=': self.rng.choice([d, 0])}[m.group(2)]
                continue
            if re.match(r'^\$(\w+)\.cast<DenseElementsAttr>\(\)\.getNumElements\(\)==1$', x):
                n = True
                continue
            return None
        return (arg, val, not n) if arg else None

    def is_const(self, args, name, val, single):
        v = args[name]
        if name == '_self':
            return T('f', [val] * N, shape='scalar' if single else getattr(v, 'shape', None), const=True)
        return self.fact('value', v, val)

    def fact(self, *f):
        self.facts.append(f)
        return f[1]

    @staticmethod
    def close(s):
        d = 0
        for i, ch in enumerate(s):
            d += ch == '('
            d -= ch == ')'
            if d == 0:
                return i
        return -1

    @staticmethod
    def split(s, sep):
        out, d, cur, i = [], 0, '', 0
        while i < len(s):
            if s[i] in '(<{[':
                d += 1
            if s[i] in ')>}]' and s[i - 1:i + 1] != '->':
                d -= 1
            if d == 0 and s.startswith(sep, i):
                out.append(cur)
                cur = ''
                i += len(sep)
                continue
            cur += s[i]
            i += 1
        return out + [cur] if cur or out else []

    # -- the source side: bind leaves, then evaluate
    def bind(self, dag, path=()):
        op = dag['operator']['def']
        vals = []
        for i, ((a, nm), (sdef, slot)) in enumerate(zip(dag['args'], self.td.slots(op))):
            sup = self.td.sup(sdef)
            kind = 'attr' if ('Attr' in sup or 'AttrConstraint' in sup) else 'val'
            if isinstance(a, dict) and a.get('kind') == 'dag':
                v = self.bind(a, path + (i,))
            else:
                if op == 'Arith_ConstantOp' or op in ('TF_ConstOp', 'TFL_ConstOp'):
                    v = self.constant(path)
                elif op == 'TFL_NoValueOp':
                    v = 'unit'
                else:
                    v = self.leaf(op, slot, kind)
                if isinstance(a, dict) and a.get('kind') == 'def':
                    v = self.constrain(a['def'], v, op, slot)
                elif a is not None:
                    raise Und('matches the literal %s' % (a,))
            if nm:
                if nm in self.env and self.ident(self.env[nm]) != self.ident(v):
                    v = self.env[nm]
                self.env[nm] = v
            vals.append(v)
        node = (op, vals)
        self.defs[path] = node
        if dag.get('name'):
            self.env[dag['name']] = ('node', path)
        return ('node', path)

    def constant(self, path):
        """a constant matched at this place: what kind of value it is depends on the operand it feeds"""
        sl = None
        if path:
            d = self.p.src
            for i in path[:-1]:
                d = d['args'][i][0]
            pop = d['operator']['def']
            sl = self.td.slots(pop)[path[-1]][1]
            if pop == 'LQ_Bconv2dOp' and sl == 'filter' or pop in ('TF_Conv2DOp', 'TFL_Conv2DOp', 'TFL_DepthwiseConv2DOp') and sl == 'filter':
                t = self.tensor('filter')
                if 'TF_Conv2DOp' == pop:
                    s = [Fraction(self.rng.randint(1, 9), self.rng.randint(1, 3)) for _ in range(N)]
                    sg = [self.rng.choice([-1, 1]) for _ in range(N)]
                    off = [Fraction(self.rng.randint(1, 5), 7) for _ in range(N)]
                    t = T('f', [a * b for a, b in zip(s, sg)], shape='filter', const=True, scale=tuple(s))
                    t.wild = tuple(a * b + o for a, b, o in zip(s, sg, off))
                else:
                    t.v = tuple(x if x else Fraction(1) for x in t.v)
                t.const = True
                return t
            if pop == 'LQ_Bconv2dOp':
                t = self.tensor('channel')
                t.const = True
                return t
            if sl in ('padding', 'paddings'):
                return ('paddings', self.rng.randint(0, 99))
        t = self.tensor(self.rng.choice(['scalar', 'channel', 'full']))
        t.const = True
        return t

    @staticmethod
    def ident(v):
        return v.id if isinstance(v, T) else v

    def arg(self, nm):
        if nm not in self.env:
            raise Und('unbound $%s' % nm)
        v = self.env[nm]
        return self.value(v)

    def value(self, v):
        if isinstance(v, tuple) and v and v[0] == 'node':
            if ('val', v[1]) not in self.defs:
                op, vals = self.defs[v[1]]
                r = self.apply(op, [self.value(x) for x in vals], v)
                if isinstance(r, T):
                    r.of = v[1]
                self.defs[('val', v[1])] = r
            return self.defs[('val', v[1])]
        return v

    # -- meaning of the operations
    def apply(self, op, a, node=None):
        s = dict(zip([n for _, n in self.td.slots(op)], a))
        if op in ('Arith_ConstantOp', 'TF_ConstOp', 'TFL_ConstOp'):
            return a[0]
        if op == 'TFL_NoValueOp':
            return NONE
        if op == 'LQ_QuantizeOp':
            x = a[0]
            if x.kind == 'b':
                return T('P', [not b for b in x.v], shape=x.shape)
            if x.kind == 'P':
                raise Und('quantises a packed tensor')
            return T('P', [y < 0 for y in num(x)], shape=x.shape)
        if op == 'LQ_DequantizeOp':
            return T('f', [Fraction(-1) if b else Fraction(1) for b in a[0].v], shape='full') if a[0].kind == 'P' else opaque('f', op, a[0].id)
        if op == 'LQ_Bconv2dOp':
            return self.bconv(s, node)
        if op in ('TF_Conv2DOp', 'TFL_Conv2DOp', 'TFL_DepthwiseConv2DOp'):
            return self.conv(op, s, node)
        if op in ('TF_PadOp', 'TF_PadV2Op', 'TFL_PadOp', 'TFL_PadV2Op'):
            pv = a[2] if len(a) == 3 else T('f', [Fraction(0)] * N, shape='scalar', const=True)
            t = opaque('f', 'pad', a[0].id, self.ident(a[1]), pv.id)
            t.pad = (a[0], a[1], pv)
            t.shape = 'full'
            return t
        m = re.match(r'^(TFL|TF)_(Add|AddV2|Sub|Mul|Div|RealDiv)Op$', op)
        if m:
            f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y, 'Div': divide}[{'AddV2': 'Add', 'RealDiv': 'Div'}.get(m.group(2), m.group(2))]
            ac = s.get('fused_activation_function', 'NONE')
            return ew(lambda x, y: act(ac, f(x, y)), a[0], a[1])
        m = re.match(r'^(TFL|TF)_(Relu|Relu1|Relu6)Op$', op)
        if m:
            return ew(lambda x: act({'Relu': 'RELU', 'Relu1': 'RELU_N1_TO_1', 'Relu6': 'RELU6'}[m.group(2)], x), a[0])
        m = re.match(r'^(TFL|TF)_(Neg|Abs|Square)Op$', op)
        if m:
            return ew({'Neg': lambda x: -x, 'Abs': abs, 'Square': lambda x: x * x}[m.group(2)], a[0])
        m = re.match(r'^(TFL|TF)_(Maximum|Minimum)Op$', op)
        if m:
            return ew(max if m.group(2) == 'Maximum' else min, a[0], a[1])
        m = re.match(r'^(TFL|TF)_(Greater|GreaterEqual|Less|LessEqual|Equal|NotEqual)Op$', op)
        if m:
            f = {'Greater': lambda x, y: x > y, 'GreaterEqual': lambda x, y: x >= y, 'Less': lambda x, y: x < y, 'LessEqual': lambda x, y: x <= y, 'Equal': lambda x, y: x == y, 'NotEqual': lambda x, y: x != y}[m.group(2)]
            return T('b', [f(x, y) for x, y in zip(num(a[0]), num(a[1]))], shape=bshape(a[0], a[1]))
        if op in ('TF_LogicalNotOp', 'TFL_LogicalNotOp'):
            return T('b', [not x for x in a[0].v], shape=a[0].shape)
        if op in ('TF_SignOp', 'TFL_SignOp'):
            return ew(lambda x: Fraction((x > 0) - (x < 0)), a[0])
        if op in ('TF_SelectOp', 'TF_SelectV2Op', 'TFL_SelectOp', 'TFL_SelectV2Op'):
            return T('f', [x if b else y for b, x, y in zip(a[0].v, num(a[1]), num(a[2]))], shape='full')
        if op in ('TF_BroadcastToOp', 'TFL_BroadcastToOp'):
            return a[0] if isinstance(a[1], tuple) and a[1][:1] == ('shape',) else opaque(a[0].kind, op, a[0].id, self.ident(a[1]))
        if op in ('TF_ShapeOp', 'TFL_ShapeOp'):
            return ('shape', self.ident(a[0]))
        if op in ('TF_TransposeOp', 'TFL_TransposeOp'):
            p = a[1] if isinstance(a[1], tuple) else self.ident(a[1])
            if p == (3, 0, 1, 2):
                return T(a[0].kind, a[0].v, shape=a[0].shape, const=a[0].const, scale=a[0].scale, perm=p)
            t = opaque('f', op, p)
            return T('f', [x * y for x, y in zip(a[0].v, t.v)], shape=a[0].shape, const=a[0].const, perm=p)
        if op in ('TF_IdentityOp', 'TF_IdentityNOp', 'TF_SnapshotOp', 'TF_StopGradientOp', 'TF_CheckNumericsOp', 'TF_PlaceholderWithDefaultOp', 'TF_PreventGradientOp'):
            return a[0]
        if op in ('TFL_QuantizeOp', 'TFL_DequantizeOp'):
            return a[0] if a[0].kind in ('f', 'b') else opaque('f', op, a[0].id)
        if op == 'TFL_MaxPool2DOp' or op == 'LQ_BMaxPool2dOp':
            w = [(n, s[n]) for n in ('padding', 'stride_w' if 'stride_w' in s else 'stride_width', 'stride_h' if 'stride_h' in s else 'stride_height', 'filter_width', 'filter_height')]
            w = [x for _, x in w]
            win = [sorted({hsh(w, i, j) % N for j in range(1 + hsh(w, i) % 3)}) for i in range(N)]
            if op == 'LQ_BMaxPool2dOp':
                return T('P', [all(a[0].v[j] for j in win[i]) for i in range(N)], shape='full')
            x = num(a[0])
            return T('f', [act(s['fused_activation_function'], max(x[j] for j in win[i])) for i in range(N)], shape='full')
        raise Und('no meaning for %s' % op)

    def geometry(self, cin, dh, dw, padding, padv, sh, sw):
        return ('conv', cin, dh, dw, padding, padv if padding == 'SAME' else None, sh, sw)

    def acc(self, inp, g):
        return [Fraction(hsh(inp, g, i) % 33 - 16) for i in range(N)]

    def bconv(self, s, node=None):
        f = s['filter']
        if node is not None and not legal_source(s):
            raise Infeasible
        if s['input'].kind != 'P':
            return opaque('f', 'bconv of a float input', s['input'].id)
        if f.kind == 'none':
            raise Und('no filter')
        g = self.geometry(s['channels_in'], s['dilation_height_factor'], s['dilation_width_factor'], s['padding'], Fraction(s['pad_values']), s['stride_height'], s['stride_width'])
        sg = [(-1 if y else 1) for y in f.v] if f.kind == 'P' else [(-1 if y < 0 else 1) for y in f.v]
        if getattr(f, 'perm', None) not in (None, (3, 0, 1, 2)):
            g = g + (f.perm,)
        A = [h * y for h, y in zip(self.acc(s['input'].id, g), sg)]
        thr, m, b = s['output_threshold'], s['post_activation_multiplier'], s['post_activation_bias']
        if not isinstance(thr, T):
            raise Und('threshold')
        if thr.kind == 'none':
            if m.kind == 'none' or b.kind == 'none':
                return opaque('f', 'bconv without multiplier or bias', A)
            return T('f', [act(s['fused_activation_function'], x) * y + z for x, y, z in zip(A, num(m), num(b))], shape='full')
        if thr.thr:
            f0, m0, b0, a0 = thr.thr
            want = [(-1 if x < 0 else 1) * (-1 if y < 0 else 1) for x, y in zip(f0.v, num(m0))]
            if want == sg:
                A0 = [h * (-1 if y < 0 else 1) for h, y in zip(self.acc(s['input'].id, g), f0.v)]
                return T('P', [act(a0, x) * y + z < 0 for x, y, z in zip(A0, num(m0), num(b0))], shape='full')
        return opaque('P', 'thresholds of something else', A, thr.id)

    def conv(self, op, s, node):
        x, f = s['input'], s['filter']
        if op == 'TF_Conv2DOp':
            st, di = s['strides'], s['dilations']
            cin = ('channels', x.id)
            pv, padding = Fraction(0), s['padding']
            rest = (st[0], st[3], di[0], di[3], s['data_format'], s['explicit_paddings'] if padding == 'EXPLICIT' else None)
            neutral = (1, 1, 1, 1, 'NHWC', None)
            dh, dw, sh, sw = di[1], di[2], st[1], st[2]
        else:
            cin, pv, padding, rest, neutral = ('channels', x.id), Fraction(0), s['padding'], (s.get('depth_multiplier'),), (s.get('depth_multiplier'),)
            dh, dw, sh, sw = s['dilation_h_factor'], s['dilation_w_factor'], s['stride_h'], s['stride_w']
        inp = x
        if x.pad and padding == 'VALID':
            x0, p, v = x.pad
            val = next((F[2] for F in self.facts if F[0] == 'value' and self.ident(self.value(F[1])) == v.id), None)
            if v.const and len(set(v.v)) == 1 and not any(F[0] == 'value' for F in self.facts):
                val = v.v[0] if len(self.td.slots('TFL_PadOp')) and v.shape == 'scalar' and self.zero_pad(x) else val
            ok = False
            for F in self.facts:
                if F[0] == 'same' and self.fit(F, p, x0, node, s.get('strides')):
                    ok = True
            if {'same1', 'same2', 'spatial'} <= {F[0] for F in self.facts}:
                h = any(F[0] == 'same1' and self.fit(F, p, x0, node, s.get('stride_h'), 'stride_h') for F in self.facts)
                w = any(F[0] == 'same2' and self.fit(F, p, x0, node, s.get('stride_w'), 'stride_w') for F in self.facts)
                q = any(F[0] == 'spatial' and self.ident(self.value(F[1])) == self.ident(p) for F in self.facts)
                ok = ok or (h and w and q)
            if ok:
                inp, padding, pv = x0, 'SAME', (val if val is not None else v.v[0])
                cin = ('channels', inp.id)
        if inp.kind == 'f' and all(abs(y) == 1 for y in inp.v):
            pid = T('P', [y < 0 for y in inp.v]).id
        else:
            pid = inp.id
        g = self.geometry(self.chan(cin), dh, dw, padding, pv, sh, sw)
        if rest != neutral:
            g = g + rest
        if op == 'TFL_DepthwiseConv2DOp':
            g = g + ('depthwise', s['depth_multiplier'])
        fv = f.v
        if op == 'TF_Conv2DOp' and getattr(f, 'wild', None) and not any(F[0] == 'binary' and self.ident(self.value(F[1])) == f.id for F in self.facts):
            fv = f.wild
        A = [h * y for h, y in zip(self.acc(pid, g), fv)]
        if op == 'TF_Conv2DOp':
            return T('f', A, shape='full')
        return T('f', [act(s['fused_activation_function'], x + y) for x, y in zip(A, num(s['bias']))], shape='full')

    def zero_pad(self, x):
        return True

    def fit(self, F, p, x0, node, stride, name=None):
        """the condition speaks of this padding, this input, this convolution's output and stride"""
        out = F[3]
        same_input = self.same_shape(self.value(F[2]), x0)
        return self.ident(self.value(F[1])) == self.ident(p) and same_input and out == node and (F[4] is stride or F[4] == stride) and (name is None or self.slotname(F[4]) in (None, name))

    def same_shape(self, a, x0):
        if not isinstance(a, T):
            return False
        if a.id == x0.id:
            return True
        # a packed tensor and the tensor it was unpacked to agree in all but the last dimension
        return a.kind == 'P' and x0.kind == 'f' and tuple(-1 if b else 1 for b in a.v) == x0.v

    def slotname(self, v):
        return None

    def chan(self, c):
        """channels of a tensor: the same number for a packed tensor's unpacked form"""
        if isinstance(c, tuple) and c and c[0] == 'channels':
            return ('channels', c[1])
        return c

    # -- the constructed side
    def build(self, dag):
        op = dag['operator']['def']
        args = []
        if op == 'replaceWithValue':
            return self.build_arg(dag['args'][0], None)
        if self.td.isop(op):
            slots = self.td.slots(op)
            if len(dag['args']) != len(slots):
                raise Und('%s built with %d arguments' % (op, len(dag['args'])))
            vals = [self.build_arg(x, slots[i][1]) for i, x in enumerate(dag['args'])]
            self.built.append((op, dict(zip([n for _, n in slots], vals))))
            return self.apply(op, vals)
        if 'NativeCodeCall' in self.td.sup(op):
            return self.native(self.td.d[op]['expression'], [self.build_arg(x, None) for x in dag['args']], [x[1] for x in dag['args']])
        raise Und('built with %s' % op)

    def build_arg(self, x, slot):
        a, nm = x
        if isinstance(a, dict) and a.get('kind') == 'dag':
            return self.build(a)
        if isinstance(a, dict) and a.get('kind') == 'def':
            n = a['def']
            sup = self.td.sup(n)
            if 'ConstantAttr' in sup:
                return self.constval(self.td.d[n], n)
            if 'NativeCodeCall' in sup:
                return self.native(self.td.d[n]['expression'], [], [], self.arg(nm) if nm else None)
            raise Und('argument %s' % n)
        if nm:
            return self.arg(nm)
        raise Und('argument %s' % (a,))

    def native(self, e, args, names, self_=None):
        e = re.sub(r'\s+', '', e)
        env = {str(i): a for i, a in enumerate(args)}
        env['_self'] = self_

        def val(x):
            m = re.match(r'^\$(\w+)$', x)
            if m and m.group(1) in env:
                return env[m.group(1)]
            if re.match(r'^-?[\d.]+f?$', x):
                return Fraction(x.rstrip('f'))
            if x in ('true', 'false'):
                return x == 'true'
            raise Und('native argument %s' % x)
        m = re.match(r'^\$_builder\.create<([\w:]+)>\((.*)\)$', e)
        if m:
            op = m.group(1).split('::')[-1]
            op = {'TFL': 'TFL_', 'TF': 'TF_', 'lq': 'LQ_'}.get(m.group(1).split('::')[-2] if '::' in m.group(1) else '', '') + op
            if op == 'TFL_NoValueOp':
                return NONE
            xs = self.split(m.group(2), ',')[1:]
            if op not in self.td.d:
                raise Und('creates %s' % op)
            n = len(self.td.slots(op))
            xs = xs[-n:]
            return self.apply(op, [val(x) for x in xs])
        m = re.match(r'^\$_builder\.getI32IntegerAttr\(\$_self\.cast<ArrayAttr>\(\)\.getValue\(\)\[(\d+)\]\.cast<IntegerAttr>\(\)\.getInt\(\)\)$', e)
        if m:
            if not isinstance(self_, tuple) or int(m.group(1)) >= len(self_):
                raise Und('element of %s' % (self_,))
            return self_[int(m.group(1))]
        m = re.match(r'^(\w+)\((.*)\)$', e)
        if m:
            f, xs = m.group(1), [val(x) for x in self.split(m.group(2), ',') if x not in ('$_builder', '&$_builder', '*$_builder', '$_loc')]
            if f == 'GetConstantVector':
                return T('f', [xs[1]] * N, shape='channel', const=True)
            if f == 'GetScaleVector':
                return T('f', xs[0].scale, shape='channel', const=True) if xs[0].scale else opaque('f', f, xs[0].id)
            if f == 'GetNumChannels':
                return ('channels', xs[0].id) if isinstance(xs[0], T) else self.und(f)
            if f == 'Bitpack':
                return T('P', [y < 0 for y in num(xs[0])], shape=xs[0].shape, const=True)
            if f == 'GetSignsOfVectorAndBroadcast4D':
                return T('f', [Fraction(-1) if y < 0 else Fraction(1) for y in num(xs[0])], shape='filter', const=True)
            if f == 'GetBitpackedOutputThresholds':
                t = opaque('f', f, *[self.ident(x) for x in xs])
                if len(xs) == 4 and all(isinstance(x, T) for x in xs[:3]) and isinstance(xs[3], str):
                    t.thr = (xs[0], xs[1], xs[2], xs[3])
                t.shape = 'channel'
                return t
        raise Und('native code %s' % e)

    def und(self, w):
        raise Und(w)

    def run(self):
        """(matched value, constructed value)"""
        root = self.bind(self.p.src)
        for c in self.p.cons:
            n = c['operator']['def']
            args = {str(i): (self.env[nm] if nm in self.env else self.und('unbound $%s' % nm)) for i, (_, nm) in enumerate(c['args'])}
            p = self.td.pred(n)
            if 'TypeConstraint' in self.td.sup(n):
                continue
            if p is None or NEUTRAL.match(p):
                continue
            self.predicate(p, args)
        self.settle()
        want = self.value(root)
        self.built = []
        self.facts_used = list(self.facts)
        if len(self.p.res) != 1:
            raise Und('%d results' % len(self.p.res))
        try:
            got = self.build(self.p.res[0])
        except Infeasible:
            raise Und('builds an expression without a value')
        return want, got

    def show(self):
        return '; '.join('%s%s' % (op, [x if not isinstance(x, T) else x.kind for x in map(self.value, vals)]) for q, (op, vals) in [(q, v) for q, v in self.defs.items() if not (q and q[0] == 'val')])[:600]

    def settle(self):
        """make the sampled constants satisfy the value conditions"""
        for F in self.facts:
            if F[0] == 'value' and isinstance(F[1], T):
                F[1].v = (F[2],) * N
                F[1].shape = 'scalar'
                F[1].const = True


def legal_source(s):
    """a convolution as earlier stages can have produced it"""
    thr, m, b = s['output_threshold'], s['post_activation_multiplier'], s['post_activation_bias']
    none = [isinstance(x, T) and x.kind == 'none' for x in (thr, m, b)]
    if none not in ([True, False, False], [False, True, True]):
        return False
    if s['padding'] == 'SAME' and s['pad_values'] == 0:
        return s['fused_activation_function'] == 'NONE' and none[0]
    return True


def samples(td, pat, seeds, **kw):
    """feasible sampled interpretations: (run, want, got)"""
    for seed in range(seeds):
        r = Run(pat, seed, **kw)
        try:
            want, got = r.run()
        except Infeasible:
            continue
        if any(op == 'LQ_Bconv2dOp' and not legal_source(dict(zip([n for _, n in td.slots(op)], [r.value(x) for x in vals]))) for p_, (op, vals) in [(k, v) for k, v in r.defs.items() if not (k and k[0] == 'val')]):
            continue
        yield r, want, got


def differs(want, got):
    if not isinstance(want, T) or not isinstance(got, T):
        return want != got
    return want.id != got.id


def patterns(path, seen=None):
    """(td, [(id, Pattern or Und)]) of a TableGen file; ids are stable under reordering of different patterns.  seen: patterns of files read before (included here too) are left out"""
    td = TD(path)
    out, count, here = [], {}, {}
    for n in td.names:
        try:
            p = Pattern(td, n)
            t = p.title()
        except Und as e:
            p, t = e, 'pattern'
        if seen is not None:
            key = (td.locs.get(n), t)
            here[key] = here.get(key, 0) + 1
            if here[key] <= seen.get(key, 0):
                continue
        count[t] = count.get(t, 0) + 1
        out.append(('%s:%s%s' % (path.split('/')[-1], t, '#%d' % count[t] if count[t] > 1 else ''), p))
    if seen is not None:
        for key, n in here.items():
            seen[key] = max(n, seen.get(key, 0))
    return td, out
