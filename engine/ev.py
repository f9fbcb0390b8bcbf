"""Gated value-graph construction over the typed program exported by cxxdump.

A classic gated-SSA / global-value-numbering dataflow analysis: every variable and memory location is mapped to a
canonical term of the function's inputs; joins become gated (decision-diagram) values; loops are summarised by
induction / reduction recognition (constant-trip loops are unrolled); callees with a body are inlined; everything
else is an uninterpreted term plus an ordered, guarded *event*.  Nothing of the analysed program is executed and no
solver is involved.
"""
import re
from fractions import Fraction
from terms import *
import terms as tm
from terms import _node

UNROLL = 64
SCALAR = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
          'unsigned char', 'bool', 'float', 'double', 'long long', 'unsigned long long', 'void', '__int128',
          'long double', 'wchar_t'}
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}
BITS = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'short': 16, 'unsigned short': 16,
        'char': 8, 'signed char': 8, 'unsigned char': 8, 'bool': 1, 'long long': 64, 'unsigned long long': 64}


def isnullopt(x):
    while x[0] == 'cast':
        x = x[3]
    return x[0] == "ctor" and "nullopt_t" in str(x[1]) or x[0] in ("gvar", "var") and str(x[2]).endswith("nullopt")


def strip(t):
    t = t.strip()
    while t.startswith('const ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1]
    if t.endswith(' const'):
        t = t[:-6]
    return t


def isreal(t):
    return strip(t) in ('float', 'double', 'long double')


def isref(t):
    return t.rstrip().endswith('&') or re.search(r'\([^()]*&\)\s*[(\[]', t) is not None


def lastname(q):
    """unqualified name; a conversion operator keeps its type (operator ns::T -> operator T)"""
    i = q.find('operator ')
    if i > 0 and q[i - 1] == ':' or i == 0:
        return 'operator ' + re.sub(r'^(?:(?:enum|struct|class|const) )*(?:\w*::)*', '', q[i + 9:])
    return q.split('::')[-1]


class Event:
    __slots__ = ('kind', 'q', 'args', 'res', 'guard', 'loops', 'line', 'file', 'fn', 'obj', 'extra', 'call', 'ret')

    def __init__(s, **k):
        for n in Event.__slots__:
            setattr(s, n, k.get(n))

    def __repr__(s):
        return '<%s %s(%s)%s%s :%s>' % (s.kind, s.q, ', '.join(show(x) for x in s.args or ()),
                                         ' if ' + show(s.guard) if s.guard is not TRUE else '',
                                         ' in ' + ','.join(repr(l) for l in s.loops) if s.loops else '', s.line)


class Loop:
    def __init__(s, depth, line):
        s.depth = depth
        s.k = mk('k', depth)
        s.trip = None
        s.line = line
        s.cond = TRUE
        s.breaks = False
        s.isdo = False
        s.brkg = []
        s.dom = None

    def __repr__(s):
        return 'k%d<%s' % (s.depth, show(s.trip) if s.trip else '?')


class St:
    __slots__ = ('store', 'live')

    def __init__(s, store=None, live=TRUE):
        s.store = store if store is not None else {}
        s.live = live

    def copy(s):
        return St(dict(s.store), s.live)


class Frame:
    def __init__(s, fn, uid, env, this, parent=None):
        s.fn = fn
        s.uid = uid
        s.env = env
        s.this = this
        s.rets = []
        s.parent = parent
        s.loops0 = 0


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class TU:
    def __init__(self, d):
        self.d = d
        self.fns = {f['id']: f for f in d['functions']}
        self.byq = {}
        for f in d['functions']:
            self.byq.setdefault(f['q'], []).append(f)
        self.records = {r['type']: r for r in d['records']}
        self.globals = {g['q']: g for g in d['globals']}
        self.gid = {g['id']: g for g in d['globals']}
        self.enums = {}
        for e in d['enums']:
            for n, v in e['consts']:
                self.enums.setdefault(e['q'], {})[n] = int(v)

    def find(self, suffix, **kw):
        """functions whose qualified name ends with `suffix` (on a :: boundary); all instantiations"""
        out = []
        for q, fs in self.byq.items():
            if q == suffix or q.endswith('::' + suffix):
                out += fs
        return out


PURE = re.compile(r'(^|::)(get|is|has|as|dyn_cast|isa|cast|size|empty|begin|end|data|front|back|find|count|str|c_str|'
                  r'operator(\*|->|\[\]|==|!=|<|>|bool|\+|-|!)|Get[A-Z]|Is[A-Z]|Has[A-Z]|As[A-Z]|'
                  r'[a-z][A-Za-z]*Type|Num|Size|Dims|Shape|value|name|length|at|ok|succeeded|failed|success|failure|'
                  r'toVector|vec|slice|take|drop|use_empty|hasOneUse|user|uses|operands?|results?|What)')


RANGE = re.compile(r'^(mlir::(detail::ElementsAttrRange|ElementsAttrRange|ValueRange|OperandRange|ResultRange|TypeRange|MutableOperandRange|detail::ElementsAttrIndexer)|llvm::(iterator_range|detail::indexed_accessor_range|indexed_accessor_range|mapped_iterator_range))')
OPCLS = re.compile(r'^mlir::([\w:]*Op|Op<.*|OpState|OpInterface<.*)$')


def isop(cls):
    return bool(OPCLS.match(cls))


def unas(v):
    """a value seen through a checked cast is the value"""
    if v.op == 'ite':
        return mapn(unas, v)
    while v.op == 'as':
        v = v.a[1]
    return v


def rsize(v):
    """number of elements of an opaque range"""
    if v.op == 'call' and str(v.a[0]).startswith('.getValues') and len(v.a) == 2:
        n = mk('call', '.getNumElements', v.a[1])
    else:
        n = mk('call', 'size', v)
    NN.add(n)
    return n


def unq(s):
    return s.a[0]


def quo(s):
    return mk('str', s)


def concat(x, y):
    def f(p, q):
        ps = list(p.a) if p.op == 'concat' else [p]
        qs = list(q.a) if q.op == 'concat' else [q]
        if ps[-1].op == 'str' and qs[0].op == 'str':
            ps[-1:], qs = [quo(unq(ps[-1]) + unq(qs[0]))], qs[1:]
        r = ps + qs
        return r[0] if len(r) == 1 else mk('concat', *r)
    return mapn(f, x, y)


def isnullE(x):
    while x[0] == 'cast':
        x = x[3]
    return x[0] == 'null'


def etype(e):
    """static type of an expression node where the export records one"""
    k = e[0]
    if k in ('call',):
        return str(e[4] if len(e) > 4 else '')
    if k == 'mcall':
        return str(e[6] if len(e) > 6 else '')
    if k in ('var', 'member'):
        return str(e[4] if len(e) > 4 else '')
    if k == 'ctor':
        return str(e[1])
    if k == 'cast':
        return str(e[2])
    if k in ('init',):
        return str(e[1])
    return ''


class Ev:
    def __init__(self, tu, opaque=None, hooks=None, maxsteps=400000):
        self.tu = tu
        self.opaque = re.compile(opaque) if opaque else None
        self.hooks = hooks or {}
        self.st = St()
        self.prefix = TRUE
        self.events = []
        self.loops = []
        self.uid = 0
        self.frames = []
        self.kids = {}
        self.PHI = {}
        self.lams = {}
        self.occ = {}
        self.dry = 0
        self.steps = 0
        self.maxsteps = maxsteps
        self.warn = set()
        self.brk = []
        self.cont = []
        self.arrs = set()
        self.unions = {}
        self.snap = {}
        self.gcache = {}
        self.tmpn = 0
        self.fnseen = set()
        self.inlined = set()

    # ------------------------------------------------------------ memory
    def isrec(self, t):
        t = strip(t)
        if t in SCALAR or t.endswith('*') or t.endswith(']'):
            return False
        return t in self.tu.records or t.startswith('std::') or '<' in t or '(lambda' in t

    def addrof(self, loc):
        return mapn(lambda l: l.a[0] if l.op == 'deref' else mk('addr', l), loc)

    def deref(self, p):
        def f(p):
            if p.op == 'addr':
                return p.a[0]
            return mk('deref', p)
        return mapn(f, p)

    def elem(self, loc, i):
        def f(l, i):
            if i.op == 'u':
                i = i.a[0]
            return mk('elem', l, i)
        return mapn(f, loc, i)

    def field(self, loc, n):
        return mapn(lambda l: mk('field', l, n), loc)

    def padd(self, p, n):
        def f(p, n):
            if n.op == 'u':
                n = n.a[0]
            if p.op == 'null':
                return mk('padd', p, n)
            if p.op == 'addr':
                l = p.a[0]
                if l.op == 'elem':
                    return self._ptr(l.a[0], tm._add(l.a[1], n))
                return self._ptr(l, n)
            return self._ptr(mk('deref', p), n)
        return mapn(f, p, n)

    def _ptr(self, base, i):
        if isc(i) and i.a[0] == 0:
            return base.a[0] if base.op == 'deref' else mk('addr', base)
        return mk('addr', mk('elem', base, i))

    def rootlocal(self, loc):
        while loc.op in ('field', 'elem'):
            loc = loc.a[0]
        return loc.op == 'var'

    def base0(self, loc):
        """value of a location that was never written"""
        op = loc.op
        if op == 'field':
            if loc.a[0] in self.unions:
                v = self.unionread(loc.a[0], loc.a[1])
                if v is not None:
                    return v
            elif loc.a[0].op == 'field' and loc.a[0].a[0] in self.unions:
                v = self.unionread(loc.a[0].a[0], loc.a[0].a[1], loc.a[1])
                if v is not None:
                    return v
            return self.proj(self.raw(loc.a[0]), loc.a[1])
        if op == 'elem':
            return self.sel(self.raw(loc.a[0]), loc.a[1])
        if op == 'gv':
            v = self.globinit(loc.a[0])
            if v is not None:
                return v
        if op == 'rl':
            return loc.a[0]
        if op == 'deref' and loc.a[0].op == 'new':
            return mk('newobj', *loc.a[0].a)
        return mk('init', loc)

    def bitlayout(self, ty):
        """[(field, offset, width)] of a record made of unsigned bit-fields, None otherwise"""
        rec = self.tu.records.get(strip(ty))
        if rec is None or rec.get('union') or not rec['fields'] or any('bits' not in f for f in rec['fields']):
            return None
        out, off = [], 0
        for f in rec['fields']:
            if strip(f['type']) not in UNSIGNED and strip(f['type']) != 'bool':
                return None
            if off % 32 + f['bits'] > 32:
                off += -off % 32
            out.append((f['name'], off, f['bits']))
            off += f['bits']
        return out

    def unionread(self, u, n, sub=None):
        """member n of a union (or bit-field sub of it) from the bits another member holds"""
        rec = self.tu.records[self.unions[u]]
        ty = {f['name']: f['type'] for f in rec['fields']}
        if sub is None:
            if strip(ty.get(n, '')) not in BITS:
                return None
            for m, t in ty.items():
                lay = self.bitlayout(t) if m != n else None
                if lay is None:
                    continue
                fl = mk('field', u, m)
                bl = []
                held = [self.st.store.get(mk('field', fl, f)) for f, off, bits in lay]
                if all(x is None for x in held):
                    continue
                for (f, off, bits), x in zip(lay, held):
                    while len(bl) < off:
                        bl.append(i2b(mk('indet', fl, c(len(bl)))))     # the gap before a unit boundary
                    for j in range(bits):
                        if x is None:
                            bl.append(i2b(mk('indet', fl, c(off + j))))
                        else:
                            bl.append(i2b(x) if bits == 1 else i2b(self.binop('&', self.binop('>>', x, c(j), 'int', 'int'), c(1), 'int', 'int')))
                w = BITS[strip(ty[n])]
                bl = bl[:w] + [i2b(mk('indet', fl, c(j))) for j in range(len(bl), w)]
                tot = mk('packbits', *bl)
                if strip(ty[n]) in UNSIGNED:
                    tot = mk('u', tot)
                return tot
            return None
        lay = self.bitlayout(ty.get(n, ''))
        if lay is None:
            return None
        for m, t in ty.items():
            if m == n or strip(t) not in BITS:
                continue
            x = self.st.store.get(mk('field', u, m))
            if x is not None:
                for f, off, bits in lay:
                    if f == sub:
                        return self.binop('&', self.binop('>>', x, c(off), 'int', 'int'), c((1 << bits) - 1), 'int', 'int')
        return None

    def raw(self, loc):
        v = self.st.store.get(loc)
        return v if v is not None else self.base0(loc)

    def globinit(self, q):
        if q in self.gcache:
            return self.gcache[q]
        self.gcache[q] = None
        g = self.tu.globals.get(q)
        if g is None or not g.get('const') or g.get('init') is None:
            return None
        sub = Ev(self.tu, None)
        sub.opaque = self.opaque
        sub.gcache = self.gcache
        sub.snap = self.snap
        sub.frames = [Frame({'q': q, 'file': g.get('file'), 'ret': ''}, -1, {}, None)]
        try:
            v = sub.rv(g['init'])
        except Exception:
            v = None
        self.gcache[q] = v
        return v

    def load(self, loc):
        if loc.op == 'ite':
            return mapn(self.load1, loc)
        return self.load1(loc)

    def snapshot(self, loc):
        """a load through a loop-carried pointer may read a local array: remember what each holds here"""
        b = loc
        while b.op in ('elem', 'field'):
            b = b.a[0]
        if b.op != 'deref' or not self.arrs or not contains(b.a[0], lambda x: x.op in ('phi', 'carry')):
            return
        for l in self.arrs:
            v = self.st.store.get(l)
            if v is not None and self.snap.setdefault(l, v) is not v:
                self.snap[l] = mk('undef')

    def load1(self, loc):
        v = self.raw(loc)
        self.snapshot(loc)
        ks = self.kids.get(loc)
        if ks:
            ov = []
            for n in sorted(ks):
                f = mk('field', loc, n)
                if self.haskey(f):
                    ov.append((n, self.load1(f)))
            if ov:
                v = self.mkobj(v, ov)
        return v

    def haskey(self, loc):
        if loc in self.st.store:
            return True
        for n in self.kids.get(loc, ()):
            if self.haskey(mk('field', loc, n)):
                return True
        return False

    def mkobj(self, base, ov):
        if base.op == 'ite':
            return mk('obj', base, tuple(ov))
        d = {}
        if base.op == 'obj':
            d = dict(base.a[1])
            base = base.a[0]
        d.update(dict(ov))
        d = {n: v for n, v in d.items() if v is not self.proj(base, n)}
        if not d:
            return base
        return mk('obj', base, tuple(sorted(d.items())))

    def proj(self, v, n):
        if v.op == 'ite':
            return mapn(lambda x: self.proj(x, n), v)
        if v.op == 'tuple' and n in ('first', 'second') and len(v.a) == 2:
            return v.a[n == 'second']
        if v.op == 'obj':
            for m, x in v.a[1]:
                if m == n:
                    return x
            return self.proj(v.a[0], n)
        if v.op == 'agg':
            for m, x in v.a[1]:
                if m == n:
                    return x
            return mk('fld', v, n)
        if v.op == 'agg0':
            rec = self.tu.records.get(v.a[0])
            if rec:
                for f in rec['fields']:
                    if f['name'] == n:
                        return self.zero(f['type'], f.get('init'))
            if n.startswith('#n'):
                return ZERO
            return mk('fld', v, n)
        if v.op == 'init':
            return mk('init', mk('field', v.a[0], n))
        return mk('fld', v, n)

    def zero(self, ty, init=None):
        t = strip(ty)
        if init is not None:
            try:
                return self.rv(init)
            except Exception:
                pass
        if t in SCALAR:
            return FALSE if t == 'bool' else ZERO
        if t.endswith('*'):
            return NULL
        if t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr'):
            return NULL
        if t.endswith(']'):
            return mk('zarr')
        if t in self.tu.records or '<' in t or t.startswith('std::'):
            return mk('agg0', t)
        return ZERO

    def sel(self, v, i):
        if i.op == 'u':
            i = i.a[0]
        if v.op == 'ite' or i.op == 'ite':
            return mapn(self._sel, v, i)
        return self._sel(v, i)

    def _sel(self, v, i):
        pend = []
        while True:
            if v.op == 'stm':
                d = tm._add(i, v.a[1], -1)
                if isc(d):
                    if d.a[0] == 0:
                        r = v.a[2]
                        break
                    v = v.a[0]
                    continue
                pend.append((tm._eq0(d), v.a[2]))
                v = v.a[0]
                if len(pend) > 40:
                    r = mk('sel', v, i)
                    break
                continue
            if v.op == 'ite':
                r = self.sel(v, i)
            elif v.op == 'arr':
                if isc(i) and 0 <= i.a[0] < len(v.a):
                    r = v.a[i.a[0]]
                else:
                    r = mk('sel', v, i)
            elif v.op == 'zarr':
                r = ZERO
            elif v.op == 'fill':
                r = v.a[0]
            elif v.op == 'init':
                r = mk('init', mk('elem', v.a[0], i))
            else:
                r = mk('sel', v, i)
            break
        for cn, x in reversed(pend):
            r = ite(cn, x, r)
        return r

    def stm(self, v, i, x):
        if v.op == 'ite' or i.op == 'ite':
            try:
                return mapn(lambda a, b_: self.stm(a, b_, x), v, i)
            except RecursionError:
                pass
        if i.op == 'u':
            i = i.a[0]
        # overwrite of the same element
        chain = []
        w = v
        while w.op == 'stm' and len(chain) < 80:
            d = tm._add(i, w.a[1], -1)
            if not isc(d):
                break
            if d.a[0] == 0:
                w = w.a[0]
                for j, y in reversed(chain):
                    w = mk('stm', w, j, y)
                v = w
                break
            chain.append((w.a[1], w.a[2]))
            w = w.a[0]
        return mk('stm', v, i, x)

    def setv(self, loc, v, ev=True, line=0):
        """store v at loc"""
        if loc.op == 'ite':
            ls = list(leafset(loc))
            if len(ls) < 9 and all(l.op == 'elem' and l.a[0] is ls[0].a[0] for l in ls):
                # one array, a conditional index
                b0 = ls[0].a[0]
                if ev:
                    for g, l in leaves(loc):
                        if g is not None:
                            self.store_event(l, v, line, g)
                self._set(b0, self.stm(self.load(b0), mapn(lambda l: l.a[1], loc), v))
                return
            for g, l in leaves(loc):
                if g is None:
                    continue
                self.setv(l, ite(g, v, self.load(l)), ev=False)
                if ev:
                    self.store_event(l, v, line, g)
            return
        if loc.op == 'big' or loc.op == 'ite?':
            self.warn.add('ambiguous store')
            return
        if ev:
            self.store_event(loc, v, line)
        self._set(loc, v)

    def _set(self, loc, v):
        if loc.op == 'elem':
            b0 = loc.a[0]
            self._set(b0, self.stm(self.load(b0), loc.a[1], v))
            return
        if loc.op == 'field':
            p = loc
            inel = False
            while p.op in ('field', 'elem'):
                if p.op == 'elem':
                    inel = True
                    break
                p = p.a[0]
            if inel:
                par = loc.a[0]
                pv = self.load(par)
                self._set(par, self.mkobj(pv, [(loc.a[1], v)]))
                return
            self.kids.setdefault(loc.a[0], set()).add(loc.a[1])
            q = loc.a[0]
            while q.op == 'field':
                self.kids.setdefault(q.a[0], set()).add(q.a[1])
                q = q.a[0]
        self.dropkids(loc)
        if v.op == 'obj':
            self.st.store[loc] = v.a[0]
            for n, x in v.a[1]:
                self._set(mk('field', loc, n), x)
        else:
            self.st.store[loc] = v

    def dropkids(self, loc):
        for n in self.kids.get(loc, ()):
            f = mk('field', loc, n)
            self.st.store.pop(f, None)
            self.dropkids(f)

    def store_event(self, loc, v, line, g=TRUE):
        if self.rootlocal(loc):
            return
        self.event('store', None, (loc, v), line=line, guard=g)

    def event(self, kind, q, args, line=0, guard=TRUE, **k):
        fr = self.frames[-1] if self.frames else None
        e = Event(kind=kind, q=q, args=tuple(args), line=line, guard=band(self.prefix, self.st.live, guard),
                  loops=tuple(self.loops), fn=fr.fn['q'] if fr else None, file=fr.fn.get('file') if fr else None, **k)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ states
    def merge(self, cn, A, B):
        """state that is A when cn, else B"""
        if A.live is FALSE:
            return B
        if B.live is FALSE:
            return A
        if A.store is B.store:
            st = A.store
        else:
            st = {}
            for k in list(A.store.keys()) + [x for x in B.store if x not in A.store]:
                va = A.store.get(k)
                vb = B.store.get(k)
                if va is vb:
                    st[k] = va
                    continue
                if va is None:
                    va = self.with_store(A, k)
                if vb is None:
                    vb = self.with_store(B, k)
                st[k] = ite(cn, va, vb)
        return St(st, bor(A.live, B.live))

    def with_store(self, S, loc):
        old = self.st
        self.st = S
        try:
            return self.base0(loc)
        finally:
            self.st = old

    # ------------------------------------------------------------ lvalues
    def tmploc(self, v, hint='tmp'):
        self.tmpn += 1
        l = mk('var', -1, self.tmpn, hint)
        self._set(l, v)
        return l

    def lookup(self, i, name):
        fr = self.frames[-1]
        while fr is not None:
            if i in fr.env:
                return fr.env[i]
            fr = fr.parent
        return mk('var', 0, i, name)

    def lv(self, e):
        op = e[0]
        if op == 'var':
            return self.lookup(e[1], e[2])
        if op == 'gvar':
            fr = self.frames[-1]
            while fr is not None:
                if e[1] in fr.env:      # static local
                    return fr.env[e[1]]
                fr = fr.parent
            return mk('gv', e[2])
        if op == 'member':
            if e[3]:
                return self.field(self.deref(self.rv(e[1])), e[2])
            return self.field(self.lv(e[1]), e[2])
        if op == 'index':
            p = self.rv(e[1])
            i = b2i(self.rv(e[2]))
            return self.pelem(p, i, self.isrec(e[3]))
        if op == 'un' and e[1] == '*':
            p = self.rv(e[2])
            return self.pelem(p, ZERO, self.isrec(e[4]))
        if op == 'un' and e[1] in ('++', '--'):
            self.rv(e)
            return self.lv(e[2])
        if op == 'assign':
            self.rv(e)
            return self.lv(e[2])
        if op == 'cond':
            cn = i2b(self.rv(e[1]))
            if cn is TRUE:
                return self.lv(e[2])
            if cn is FALSE:
                return self.lv(e[3])
            return ite(cn, self.lv(e[2]), self.lv(e[3]))
        if op == 'bin' and e[1] == ',':
            self.rv(e[2])
            return self.lv(e[3])
        if op == 'cast' and e[1] in ('Base', 'Dynamic', 'BitCast', 'LValueBitCast', 'NoOp'):
            return self.lv(e[3])
        if op == 'this':
            return self.deref(self.frames[-1].this or mk('thisptr'))
        if op == 'str':
            return mk('rl', mk('str', e[1]))
        if op in ('call', 'mcall', 'pcall'):
            v, byref = self.callexpr(e)
            if byref:
                return self.deref(v)
            return self.tmploc(v)
        if op == 'fn':
            return mk('rl', mk('fnref', e[1]['q']))
        return self.tmploc(self.rv(e))

    def pelem(self, p, i, rec):
        def f(p, i):
            if i.op == 'u':
                i = i.a[0]
            l = self.deref(p)
            if rec and isc(i) and i.a[0] == 0 and l not in self.arrs:
                return l
            if p.op == 'addr' and l.op == 'elem':
                return mk('elem', l.a[0], tm._add(l.a[1], i))
            if p.op == 'addr' and isc(i) and i.a[0] == 0:
                if l.op in ('var', 'field', 'gv', 'rl') and l not in self.arrs:
                    return l
                return mk('elem', l, i)
            return mk('elem', l, i)
        return mapn(f, p, i)

    # ------------------------------------------------------------ rvalues
    def wrap(self, v, ty):
        t = strip(ty)
        if t == 'bool':
            return mapn(lambda x: boolterm(x) if x.op not in ('c', 'b') else b(bool(x.a[0])), v)
        if t in UNSIGNED and v.op not in ('c', 'poly', 'ite', 'u', 'b', 'big'):
            NN.add(v)
        return v

    def isarr(self, ty):
        return ty.rstrip().endswith(']')

    def rload(self, e, ty):
        loc = self.lv(e)
        if self.isarr(ty):
            for l in leafset(loc):
                self.arrs.add(l)
            return mapn(lambda l: mk('addr', mk('elem', l, ZERO)) if l.op == 'elem' else mk('addr', l), loc)
        return self.wrap(self.load(loc), ty)

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()

    def rv(self, e):
        self.tick()
        if e is None:
            return mk('undef')
        op = e[0]
        m = getattr(self, 'e_' + op, None)
        if m is None:
            self.warn.add('expr ' + op)
            return mk('unk', op)
        return m(e)

    def e_int(self, e):
        if strip(e[2]) == 'bool':
            return b(int(e[1]) != 0)
        return c(int(e[1]))

    def e_float(self, e):
        s = e[1]
        try:
            if s.startswith('0x'):
                return c(Fraction(float.fromhex(s)))
            return c(Fraction(s))
        except Exception:
            return mk('fconst', s)

    def e_bool(self, e):
        return b(e[1])

    def e_null(self, e):
        return NULL

    def e_str(self, e):
        return mk('str', e[1])

    def e_enum(self, e):
        return c(int(e[2]))

    def e_var(self, e):
        return self.rload(e, e[4])

    def e_gvar(self, e):
        return self.rload(e, e[4])

    def e_fn(self, e):
        return mk('fnref', e[1]['q'] + e[1].get('t', ''))

    def e_this(self, e):
        return self.frames[-1].this or mk('thisptr')

    def e_member(self, e):
        if not e[3] and e[1][0] in ('call', 'mcall', 'ctor', 'init', 'pcall'):
            v, byref = (self.callexpr(e[1]) if e[1][0] in ('call', 'mcall', 'pcall') else (self.rv(e[1]), False))
            if not byref:
                return self.wrap(self.proj(v, e[2]), e[4])
            return self.wrap(self.load(self.field(self.deref(v), e[2])), e[4])
        return self.rload(e, e[4])

    def e_index(self, e):
        return self.rload(e, e[3])

    def e_defarg(self, e):
        return self.rv(e[1])

    def e_unk(self, e):
        self.warn.add('unk ' + str(e[1]))
        return mk('unk', str(e[1]))

    def e_zero(self, e):
        return self.zero(e[1])

    def e_throw(self, e):
        v = self.rv(e[1]) if e[1] else mk('rethrow')
        self.event('throw', None, (v,), line=e[2])
        self.st.live = FALSE
        return mk('undef')

    def e_stmtexpr(self, e):
        blk = e[1]
        last = mk('undef')
        for s in blk[2]:
            if s[0] == 'expr':
                last = self.rv(s[2])
            else:
                self.ex(s)
        return last

    def e_lambda(self, e):
        uid = len(self.lams) + 1
        fr = self.frames[-1]
        env = {}
        for cap in e[2]:
            if cap.get('this'):
                continue
            if 'init' in cap:
                l = self.tmploc(self.rv(cap['init']), cap['name'])
            elif cap.get('byref'):
                l = self.lookup(cap['var'], cap['name'])
            else:
                l = self.tmploc(self.load(self.lookup(cap['var'], cap['name'])), cap['name'])
            env[cap['var']] = l
        self.lams[uid] = (e[1], env, fr.this, e[3] if len(e) > 3 else None, fr)
        return mk('lam', uid)

    def e_init(self, e):
        ty, els, names, filler = e[1], e[2], e[3], e[4]
        vs = [self.rv(x) for x in els]
        if names or (not self.isarr(ty) and self.isrec(ty)):
            t = strip(ty)
            if t.startswith('std::array'):
                return vs[0] if vs else mk('zarr')
            rec = self.tu.records.get(t)
            off = len(rec['bases']) if rec and len(vs) > len(names) else 0
            vs = vs[off:] if off else vs
            d = list(zip(names, vs))
            return mk('agg', t, tuple(d))
        if self.isarr(ty):
            mm = re.search(r'\[(\d+)\]$', ty)
            if mm and len(vs) < int(mm.group(1)) <= 512:
                f = self.rv(filler) if filler else ZERO
                vs = vs + [f] * (int(mm.group(1)) - len(vs))
            return mk('arr', *vs)
        return mk('ilist', *vs)

    def e_cond(self, e):
        cn = self.tob(self.rv(e[1]))
        if cn is TRUE:
            return self.rv(e[2])
        if cn is FALSE:
            return self.rv(e[3])
        S0 = self.st
        A = S0.copy()
        A.live = band(A.live, cn)
        self.st = A
        va = self.rv(e[2])
        A = self.st
        Bs = S0.copy()
        Bs.live = band(Bs.live, bnot(cn))
        self.st = Bs
        vb = self.rv(e[3])
        Bs = self.st
        self.st = self.merge(cn, A, Bs)
        if strip(e[4]) == 'bool':
            va, vb = self.tob(va), self.tob(vb)
        return ite(cn, va, vb)

    def tob(self, v):
        return i2b(v)

    def e_cast(self, e):
        kind, to, frm = e[1], strip(e[2]), strip(e[4])
        if kind == 'Dynamic':
            return mk('dyncast', to, self.rv(e[3]))
        if kind in ('IntegralToBoolean', 'FloatingToBoolean'):
            return i2b(self.rv(e[3]))
        if kind == 'PointerToBoolean':
            return p2b(self.rv(e[3]))
        v = self.rv(e[3])
        if kind == 'IntegralCast':
            v = b2i(v)
            if to == 'bool':
                return i2b(v)
            bt, bf = BITS.get(to), BITS.get(frm)
            if to in UNSIGNED and frm not in UNSIGNED and bf:
                def f(x):
                    if x.op == 'c':
                        return x if x.a[0] >= 0 or bt is None else c(x.a[0] % (1 << bt))
                    if nonneg(x) or x.op == 'u':
                        return x
                    if x.op == 'narrow' or x.op == 'ftoi':
                        return mk('u', x)
                    return mk('u', x)
                v = mapn(f, v)
            if bt and bf and bt < bf and bt <= 16:
                def g(x):
                    if x.op == 'c':
                        y = x.a[0] % (1 << bt)
                        if to not in UNSIGNED and y >= 1 << (bt - 1):
                            y -= 1 << bt
                        return c(y)
                    if x.op == 'u':
                        x = x.a[0]
                    if x.op in ('bit',):
                        return x
                    return mk('narrow', to, x)
                v = mapn(g, v)
            elif bt and to not in UNSIGNED:
                def h(x):
                    if x.op == 'c':
                        y = x.a[0] % (1 << bt)
                        return c(y - (1 << bt) if y >= 1 << (bt - 1) else y)
                    return x.a[0] if x.op == 'u' and bt >= (bf or 0) else x
                v = mapn(h, v)
            return v
        if kind == 'IntegralToFloating':
            v = b2i(v)
            return mapn(lambda x: x.a[0] if x.op == 'u' else x, v)
        if kind == 'FloatingToIntegral':
            def f(x):
                if x.op == 'c':
                    return c(int(x.a[0]))
                x = mk('ftoi', x)
                # a value outside of a narrow type does not survive the conversion
                return mk('narrow', to, x) if BITS.get(to, 32) <= 16 and to != 'bool' else x
            return mapn(f, v)
        if kind == 'FloatingCast':
            return v
        if kind in ('BitCast',) and to.endswith('*') and frm.endswith('*'):
            return self.ptrcast(v, to, frm)
        return v

    def ptrcast(self, v, to, frm):
        def size(t):
            t = strip(t[:-1])
            return BITS.get(t) or {'float': 32, 'double': 64}.get(t)
        s1, s2 = size(to), size(frm)
        if s1 and s2 and s1 != s2:
            def f(p):
                if p.op == 'null':
                    return p
                if p.op == 'pcast':
                    q = p.a[1]
                    if p.a[2] == s1:
                        return q
                    return mk('pcast', s1, q, p.a[2])
                return mk('pcast', s1, p, s2)
            return mapn(f, v)
        return v

    def e_un(self, e):
        op, sub_, post, ty = e[1], e[2], e[3], e[4]
        if op == '*':
            return self.rload(e, ty)
        if op == '&':
            if sub_[0] == 'fn':
                return self.rv(sub_)
            loc = self.lv(sub_)
            st = {}

            def f(l):
                if l.op == 'elem':
                    return self._ptr(l.a[0], l.a[1])
                if l.op == 'deref':
                    return l.a[0]
                if l.op == 'rl':
                    return mk('addr', l)
                return mk('addr', l)
            return mapn(f, loc)
        if op in ('++', '--'):
            loc = self.lv(sub_)
            old = self.load(loc)
            one = ONE if op == '++' else c(-1)
            new = self.padd(old, one) if strip(ty).endswith('*') else add(b2i(old), one)
            self.setv(loc, new)
            return old if post else new
        v = self.rv(sub_)
        if op == '!':
            return bnot(i2b(v))
        if op == '-':
            return neg(b2i(v))
        if op == '+':
            return b2i(v)
        if op == '~':
            return mapn(lambda x: self.bitnot(x, ty), b2i(v))
        return mk('un', op, v)

    def bitnot(self, x, ty):
        if x.op == 'c':
            n = BITS.get(strip(ty), 32)
            y = ~x.a[0] % (1 << n)
            if strip(ty) not in UNSIGNED and y >= 1 << (n - 1):
                y -= 1 << n
            return c(y)
        if x.op == 'bnotw':
            return x.a[0]
        return mk('bnotw', x)

    def e_bin(self, e):
        op, l, r, ty, lty = e[1], e[2], e[3], e[4], e[5]
        if op == ',':
            self.rv(l)
            return self.rv(r)
        if op in ('&&', '||'):
            cl = i2b(self.rv(l))
            if op == '&&' and cl is FALSE or op == '||' and cl is TRUE:
                return cl
            g = cl if op == '&&' else bnot(cl)
            S0 = self.st
            A = S0.copy()
            A.live = band(A.live, g)
            self.st = A
            cr = i2b(self.rv(r))
            A = self.st
            Bs = S0.copy()
            Bs.live = band(Bs.live, bnot(g))
            self.st = self.merge(g, A, Bs)
            return band(cl, cr) if op == '&&' else bor(cl, cr)
        a, b_ = self.rv(l), self.rv(r)
        return self.binop(op, a, b_, ty, lty)

    def binop(self, op, a, b_, ty, lty):
        lt_, t = strip(lty), strip(ty)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if lt_.endswith('*') or lt_ == 'std::nullptr_t':
                if op == '==':
                    return eqv(a, b_)
                if op == '!=':
                    return bnot(eqv(a, b_))
            if isreal(lt_):
                a, b_ = b2i(a), b2i(b_)
                return {'==': lambda: feq(a, b_), '!=': lambda: bnot(feq(a, b_)), '<': lambda: flt(a, b_),
                        '>': lambda: flt(b_, a), '<=': lambda: fle(a, b_), '>=': lambda: fle(b_, a)}[op]()
            a, b_ = b2i(a), b2i(b_)
            return {'==': lambda: eqv(a, b_), '!=': lambda: bnot(eqv(a, b_)), '<': lambda: lt(a, b_),
                    '>': lambda: gt(a, b_), '<=': lambda: le(a, b_), '>=': lambda: ge(a, b_)}[op]()
        if t.endswith('*'):
            if op == '+':
                return self.padd(a, b2i(b_)) if lt_.endswith('*') or self.isarr(lt_) else self.padd(b_, b2i(a))
            if op == '-':
                return self.padd(a, neg(b2i(b_)))
        if op == '-' and (lt_.endswith('*') or self.isarr(lt_)):
            return self.pdiff(a, b_)
        a, b_ = b2i(a), b2i(b_)
        if op == '+':
            return add(a, b_)
        if op == '-':
            return sub(a, b_)
        if op == '*':
            return mul(a, b_)
        if op == '/':
            return fdiv(a, b_) if isreal(t) else div(a, b_)
        if op == '%':
            return mod(a, b_)
        return mapn(lambda x, y: self.bits(op, x, y, t), a, b_)

    def pdiff(self, a, b_):
        def f(p, q):
            def split(p):
                if p.op == 'addr':
                    l = p.a[0]
                    return (l.a[0], l.a[1]) if l.op == 'elem' else (l, ZERO)
                return (mk('deref', p), ZERO)
            (bp, ip), (bq, iq) = split(p), split(q)
            if bp is bq:
                return tm._add(ip, iq, -1)
            return mk('pdiff', p, q)
        return mapn(f, a, b_)

    def bits(self, op, x, y, t):
        u0 = x.op == 'u'
        x, y = tm._su(x), tm._su(y)
        w = BITS.get(t, 32)
        if isc(x) and isc(y) and not isinstance(x.a[0], Fraction):
            p, q = x.a[0], y.a[0]
            r = {'<<': lambda: p << q if 0 <= q < 200 else 0, '>>': lambda: p >> q if 0 <= q < 200 else 0,
                 '&': lambda: p & q, '|': lambda: p | q, '^': lambda: p ^ q}[op]()
            if w and t in UNSIGNED:
                r %= 1 << w
            elif w:
                r %= 1 << w
                if r >= 1 << (w - 1):
                    r -= 1 << w
            return c(r)
        if op == '<<':
            if isc(y) and 0 <= y.a[0] < 63:
                return tm._mul(x, c(1 << y.a[0]))
            return mk('shl', x, y)
        if op == '>>':
            if isc(y) and 0 <= y.a[0] < 63 and nonneg(x):
                return tm._div(x, c(1 << y.a[0]))
            if u0 and t in UNSIGNED and w:
                # a value that may be negative counts modulo 2^w
                return mk('shr', mk('narrow', t, x), y)
            return mk('shr', x, y)
        if op == '&':
            for p, q in ((x, y), (y, x)):
                if isc(q):
                    if q.a[0] == 0:
                        return ZERO
                    n = q.a[0] + 1
                    if n > 1 and n & (n - 1) == 0 and p.op != 'band' and (p.op == 'u' or u0 or nonneg(p)):
                        return tm._add(p, tm._mul(c(n), tm._div(p, c(n))), -1)
                    if q.a[0] == -1:
                        return p
        if op in ('|', '^'):
            for p, q in ((x, y), (y, x)):
                if isc(q) and q.a[0] == 0:
                    return p
            if op == '^' and x is y:
                return ZERO
        if x is y and op in '&|':
            return x
        nm = {'&': 'band', '|': 'bor', '^': 'bxor'}[op]
        ops = []
        for p in (x, y):
            ops += list(p.a) if p.op == nm else [p]
        if nm != 'bxor':
            ops = list(dict.fromkeys(ops))
        ops.sort(key=lambda z: z.id)
        if len(ops) == 1:
            return ops[0]
        return mk(nm, *ops)

    def e_assign(self, e):
        op, l, r, cty, ty, line = e[1], e[2], e[3], e[4], e[5], e[6]
        if op == '=':
            v = self.rv(r)
            loc = self.lv(l)
            if strip(ty) == 'bool':
                v = i2b(v)
            self.setv(loc, v, line=line)
            return v
        loc = self.lv(l)
        v = self.rv(r)
        old = self.load(loc)
        o = op[:-1]
        if strip(ty).endswith('*'):
            new = self.padd(old, b2i(v) if o == '+' else neg(b2i(v)))
        else:
            new = self.binop(o, old, v, cty, cty)
            if strip(ty) == 'bool':
                new = i2b(new)
        self.setv(loc, new, line=line)
        return new

    def e_new(self, e):
        ty, init, place, asz, line = e[1], e[2], e[3], e[4], e[5]
        n = self.rv(asz) if asz else NULL
        if init is not None and init[0] == 'ctor' and not asz and not place and \
                (init[3] or not (self.tu.records.get(strip(ty)) or {}).get('fields')):
            # an object built by a constructor that is not looked into: the same as make_unique<T>(...)
            args = [self.rv(x) for x in init[3]]
            t = mk('make', '<%s>' % strip(ty), *args)
            self.event('make', '<%s>' % strip(ty), args, line=line, res=t)
            return t
        key = ('new', ty)
        self.occ[key] = self.occ.get(key, 0) + 1
        p = mk('new', ty, self.occ[key] - 1, n)
        self.event('new', ty, (p,), line=line)
        if init is not None:
            loc = mk('deref', p)
            if init[0] == 'ctor':
                self.construct(init, loc)
            else:
                self._set(loc, self.rv(init))
            # scalar members that start out with a constant are observable writes to the new object
            def under(x):
                while x.op == 'field':
                    x = x.a[0]
                    if x is loc:
                        return True
                return False
            for l, v in list(self.st.store.items()):
                if under(l):
                    if v.op in ('c', 'b'):
                        self.event('store', None, (l, v), line=line)
        return p

    def e_delete(self, e):
        self.event('delete', None, (self.rv(e[1]),), line=e[2], extra=bool(e[3]))
        return mk('undef')

    def e_shuffle(self, e):
        return mk('shuffle', *[self.rv(x) for x in e[1]])

    def e_ctor(self, e):
        ty = strip(e[1])
        if ty in self.tu.records and (e[2].get('id') in self.tu.fns or not e[3] and not ty.startswith(('std::', 'llvm::'))):
            loc = self.tmploc(mk('undef'), 'obj')
            self.construct(e, loc)
            return self.load(loc)
        return self.opq_ctor(e)

    def opq_ctor(self, e):
        ty = strip(e[1])
        if ty.startswith('llvm::StringLiteral') and e[3]:
            return self.rv(e[3][0])
        if ty.startswith('llvm::StringSwitch<') and e[3]:
            return mk('ssw', self.rv(e[3][0]), ())
        if ty.startswith(('std::pair<', 'std::tuple<')) and e[3]:
            if len(e[3]) == 1 and strip(etype(e[3][0])).split('<')[0] in ('std::pair', 'std::tuple'):
                return self.rv(e[3][0])
            if ty.startswith('std::pair<') and len(e[3]) == 2 or ty.startswith('std::tuple<'):
                return mk('tuple', *[self.rv(x) for x in e[3]])
        if ty.startswith('std::unique_ptr') or ty.startswith('std::shared_ptr') or ty.startswith('std::optional') \
                or ty.startswith('std::function') or ty.startswith('std::reference_wrapper') \
                or ty.startswith('mlir::Value') or ty.startswith('absl::string_view') \
                or ty.startswith('std::basic_string_view') or ty.startswith('llvm::StringRef') or \
                ty.startswith('std::basic_string<'):
            if not e[3]:
                return NULL if 'ptr' in ty or 'optional' in ty else mk('agg0', ty)
            if isnullopt(e[3][0]):
                return NULL
            v = self.rv(e[3][0])
            if len(e[3]) == 1 or e[3][1][0] == 'defarg':
                return v
            if v.op == 'addr' and (ty.startswith('std::basic_string<') or ty.startswith(('llvm::StringRef', 'absl::string_view', 'std::basic_string_view'))):
                a0, n = v.a[0], self.rv(e[3][1])
                if n.op == 'addr':
                    n = self.pdiff(n, v)
                if a0.op == 'field' and a0.a[1] == '#d':
                    sz = self.vsize(a0.a[0])
                    if n is sz:
                        return self.load(a0.a[0])
                    if isc(tm.add(n, tm.neg(sz))):
                        return mk('agg', ty, (('#n', n), ('#d', self.load(a0))))
        if self.MVAL.match(ty):
            if not e[3]:
                return NULL
            if len(e[3]) == 1 or all(x[0] == 'defarg' for x in e[3][1:]):
                return self.rv(e[3][0])
        if re.match(r'llvm::(Mutable)?ArrayRef\b', ty) and not e[3]:
            return mk('agg0', ty)
        if self.VIEW.match(ty) and len(e[3]) == 1:
            v = self.rv(e[3][0])
            if v.op in ('ilist', 'arr'):
                return mk('agg', ty, (('#n', c(len(v.a))), ('#d', mk('arr', *v.a))))
            if not (v.op == 'addr' or v.op == 'c'):
                return v
            return mk('ctor', ty, v)
        if self.VIEW.match(ty) and len(e[3]) == 2 and e[3][1][0] != 'defarg':
            args = [self.rv(x) for x in e[3]]
            if args[0].op == 'addr' and args[0].a[0].op == 'field' and args[0].a[0].a[1] == '#d':
                par = args[0].a[0].a[0]
                if args[1] is self.vsize(par):
                    return self.load(par)
        args = [self.rv(x) for x in e[3]]
        if re.match(r'(std::vector|llvm::SmallVector)', ty):
            return self.vec_ctor(ty, e, args)
        if ty.startswith('std::array') and not args:
            return mk('undef')
        if len(args) == 1 and e[2].get('pm', ['v'])[0] in ('c', 'm', 'v') and False:
            return args[0]
        for i, x in enumerate(e[3]):
            if args[i].op == 'lam':
                self.callback(args[i], mk('ctor', ty))
        t = mk('ctor', ty, *[self.argview(a) for a in args])
        self.event('ctor', ty, args, line=e[4], res=t)
        return t

    def vec_ctor(self, ty, e, args):
        if not args:
            return mk('agg0', ty)
        a0 = args[0]
        if a0.op in ('ilist', 'arr'):
            return mk('agg', ty, (('#n', c(len(a0.a))), ('#d', mk('arr', *a0.a))))
        q = e[2].get('pm', [])
        if len(args) == 1 or (len(args) >= 2 and e[3][1][0] == 'defarg'):
            if strip_e_int(e[3][0]):
                return mk('agg', ty, (('#n', tm._su(a0)), ('#d', mk('zarr'))))
            return a0
        if len(args) >= 2 and args[0].op == 'addr' and args[1].op == 'addr':
            d = self.pdiff(args[1], args[0])
            a0 = args[0].a[0]
            if a0.op == 'field' and a0.a[1] == '#d' and d.op != 'pdiff':
                par = a0.a[0]
                if d is self.vsize(par):
                    return self.load(par)
                return mk('agg', ty, (('#n', d), ('#d', self.load(a0))))
        if len(args) >= 2 and a0.op == 'call' and args[1].op == 'call' and (a0.a[0], args[1].a[0]) == ('.begin', '.end') and a0.a[1:] == args[1].a[1:]:
            return mk('agg', ty, (('#n', rsize(a0.a[1])), ('#d', a0.a[1])))
        if len(args) == 1 and a0.op not in ('lam',):
            return a0
        if len(args) >= 2 and strip_e_int(e[3][0]) and q[:2] != ['v', 'v']:
            return mk('agg', ty, (('#n', tm._su(a0)), ('#d', mk('fill', args[1]))))
        if len(args) >= 2 and all(x.op == 'addr' for y in args[:2] for x in leafset(y)):
            n = self.pdiff(args[1], a0)
            if not tm.contains(n, lambda x: x.op == 'pdiff'):
                # copied element by element from a pointer range
                loc = self.tmploc(mk('agg', ty, (('#n', n), ('#d', mk('zarr')))), 'vec')
                d, s = self.field(loc, '#d'), a0
                self.synthloop(e[4], n, lambda i: self.setv(self.elem(d, i), self.load(self.deref(self.padd(s, i))), line=e[4]))
                return self.load(loc)
        return mk('ctor', ty, *args)

    def construct(self, e, loc):
        """run constructor expression e on object at loc"""
        ty = strip(e[1])
        f = self.tu.fns.get(e[2].get('id'))
        rec = self.tu.records.get(ty)
        if f is None:
            if rec is not None and not e[3] and not ty.startswith(('std::', 'llvm::')):
                self._set(loc, mk('undef') if not any(x.get('init') for x in rec['fields']) else mk('undef'))
                for x in rec['fields']:
                    if x.get('init') is not None:
                        self._set(mk('field', loc, x['name']), self.rv(x['init']))
                    elif self.isrec(x['type']) and (strip(x['type']).startswith('std::') or strip(x['type']) in self.tu.records):
                        self._set(mk('field', loc, x['name']), self.dflt_obj(x['type']))
                return
            self._set(loc, self.opq_ctor(e))
            return
        self._set(loc, mk('undef'))
        self.invoke(f, e[3], mk('addr', loc) if loc.op != 'deref' else loc.a[0], e[4])

    def dflt_obj(self, ty):
        t = strip(ty)
        if t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr'):
            return NULL
        return mk('agg0', t)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        v, byref = self.callexpr(e)
        if byref:
            return self.wrap(self.load(self.deref(v)), strip(e[4]) if e[0] == 'call' else e[6])
        return v
    e_mcall = e_call

    def e_pcall(self, e):
        v, byref = self.callexpr(e)
        return v

    def argview(self, v):
        return v

    def callexpr(self, e):
        """returns (value, byref)"""
        op = e[0]
        if op == 'pcall':
            f = self.rv(e[1])
            if f.op == 'lam':
                return self.call_lambda(f, e[2], e[3]), False
            args = [self.rv(x) for x in e[2]]
            if f.op == 'fnref':
                fs = [x for x in self.tu.byq.get(f.a[0].split('<')[0], ()) if x['q'] + x.get('t', '') == f.a[0]]
                if fs and len(fs) == 1 and fs[0].get('body') is not None:
                    return self.invoke(fs[0], e[2], None, e[3]), isref(fs[0]['ret'])
            t = mk('pcall', f, *[self.argview(a) for a in args])
            self.event('pcall', show(f).split('.')[-1], args, line=e[3], res=t, obj=f)
            return t, False
        if op == 'call':
            ci, argE, line, ty = e[1], e[2], e[3], e[4]
            return self.docall(ci, argE, None, None, line, ty)
        ci, argE, line, arrow, ty = e[2], e[3], e[4], e[5], e[6]
        return self.docall(ci, argE, e[1], arrow, line, ty)

    def docall(self, ci, argE, objE, arrow, line, ty):
        q = ci['q']
        if q in self.hooks:
            r = self.hooks[q](self, ci, argE, objE, arrow, line)
            if r is not None:
                return r
        f = self.tu.fns.get(ci.get('id'))
        nm = lastname(q)
        if ci.get('lambda') and nm == 'operator()':
            v = self.rv(objE)
            lam = v
            if v.op == 'lam':
                return self.call_lambda(v, argE, line, ci), isref(ci['ret'])
            # leafs
            if v.op == 'ite':
                pass
        if objE is not None and not ci.get('static'):
            # conversion of rvalue objects
            if f is not None and not self.isopaque(q) and not ci.get('virt'):
                if arrow:
                    this = self.rv(objE)
                else:
                    this = self.addrof(self.lv(objE))
                return self.invoke(f, argE, this, line), isref(f['ret'])
            r = self.mlir_call(ci, nm, argE, objE, arrow, line, ty)
            if r is not None:
                return r
            r = self.builtin_method(ci, nm, argE, objE, arrow, line, ty)
            if r is not None:
                return r
            return self.opaque_call(ci, argE, objE, arrow, line, ty)
        if f is not None and not self.isopaque(q):
            return self.invoke(f, argE, None, line), isref(f['ret'])
        r = self.mlir_call(ci, nm, argE, None, None, line, ty)
        if r is not None:
            return r
        r = self.builtin_fn(ci, nm, argE, line, ty)
        if r is not None:
            return r
        return self.opaque_call(ci, argE, None, None, line, ty)

    def isopaque(self, q):
        return self.opaque is not None and self.opaque.search(q)

    def call_lambda(self, lam, argE, line, ci=None):
        fid, env, this, specs, fr = self.lams[lam.a[0]]
        f = self.tu.fns.get(ci['id']) if ci and ci.get('id') in self.tu.fns else self.tu.fns.get(fid)
        if f is None and specs:
            f = self.tu.fns.get(specs[0])
        if f is None:
            return mk('lamcall', lam)
        return self.invoke(f, argE, this, line, parent=fr, env=env)

    def invoke(self, f, argE, this, line, parent=None, env=None, argvals=None):
        if len(self.frames) > 60 or sum(1 for fr in self.frames if fr.fn is f) > 3:
            self.warn.add('recursion ' + f['q'])
            return mk('rec', f['q'])
        self.uid += 1
        self.inlined.add(f['q'])
        fr = Frame(f, self.uid, dict(env or {}), this, parent)
        for i, p in enumerate(f['params']):
            if argvals is not None:
                if p['mode'] in 'rcm':
                    fr.env[p['id']] = argvals[i]
                else:
                    l = mk('var', self.uid, p['id'], p['name'])
                    fr.env[p['id']] = l
                    self._set(l, argvals[i])
                continue
            if i >= len(argE):
                continue
            a = argE[i]
            if p['mode'] in 'rcm':
                fr.env[p['id']] = self.lv(a[1] if a[0] == 'defarg' else a)
            else:
                l = mk('var', self.uid, p['id'], p['name'])
                v = self.rv(a)
                if strip(p['type']) == 'bool':
                    v = i2b(v)
                fr.env[p['id']] = l
                self.st.store[l] = v if v.op != 'obj' else v
                if v.op == 'obj':
                    self._set(l, v)
        return self.run(f, fr)

    def run(self, f, fr):
        oldp, oldl = self.prefix, self.st.live
        self.prefix = band(self.prefix, self.st.live)
        self.st.live = TRUE
        self.frames.append(fr)
        ob, oc = self.brk, self.cont
        self.brk, self.cont = [], []
        fr.loops0 = len(self.loops)
        if f.get('ctor'):
            for i in f.get('inits', []):
                if 'field' in i:
                    loc = mk('field', self.deref(fr.this), i['field'])
                    ie = i['e']
                    rec = self.tu.records.get(strip(f.get('cls', '')))
                    refd = rec and any(x['name'] == i['field'] and x['ref'] for x in rec['fields'])
                    if ie is None:
                        continue
                    if refd:
                        self._set(loc, self.addrof(self.lv(ie)))
                    elif ie[0] == 'ctor':
                        self.construct(ie, loc)
                    else:
                        self._set(loc, self.rv(ie))
                elif i.get('delegating') and i['e'] and i['e'][0] == 'ctor':
                    self.construct(i['e'], self.deref(fr.this))
                elif 'base' in i and i['e'] and i['e'][0] == 'ctor':
                    g = self.tu.fns.get(i['e'][2].get('id'))
                    if g is not None:
                        self.invoke(g, i['e'][3], fr.this, 0)
        self.ex(f['body'])
        self.frames.pop()
        self.brk, self.cont = ob, oc
        rets = fr.rets
        if self.st.live is not FALSE:
            rets = rets + [(self.st.live, mk('void') if strip(f['ret']) == 'void' or f.get('ctor') else mk('noret'), self.st)]
        if not rets:
            self.st = St(self.st.store, FALSE)
            self.prefix = oldp
            return mk('undef')
        val, S = rets[-1][1], rets[-1][2]
        comp = rets[-1][0]
        for g, v, s in reversed(rets[:-1]):
            val = ite(g, v, val)
            A, Bs = St(s.store, TRUE), St(S.store, TRUE)
            S = self.merge(g, A, Bs)
            comp = bor(comp, g)
        self.st = St(dict(S.store), band(oldl, comp))
        self.prefix = oldp
        fr.retlist = rets
        self.last_rets = rets
        return val

    def callback(self, lam, ctx):
        """evaluate a lambda handed to an opaque callee: once, with symbolic arguments, in a loop-like context"""
        fid, env, this, specs, fr = self.lams[lam.a[0]]
        ids = [fid] if fid in self.tu.fns else []
        for s in specs or []:
            if s in self.tu.fns:
                ids.append(s)
        for i in ids[:2]:
            f = self.tu.fns[i]
            key = ('cb', f['line'])
            L = Loop(len(self.loops) + 1, f['line'])
            L.trip = mk('cbtrip', ctx)
            S0 = self.st.copy()
            n0 = len(self.events)
            for pas in range(2):
                self.loops.append(L)
                vals = []
                for j, p in enumerate(f['params']):
                    t = mk('cbparam', ctx, j)
                    if p['mode'] in 'rcm':
                        vals.append(mk('rl', t))
                    else:
                        vals.append(self.wrap(t, p['type']))
                r = self.invoke(f, [], this, 0, parent=fr, env=env, argvals=vals)
                self.event('cbret', None, (r,), line=f['line'])
                self.loops.pop()
                # havoc what the callback wrote
                ch = [k for k, v in self.st.store.items() if S0.store.get(k) is not v and k in S0.store]
                S1 = self.st
                self.st = S0.copy()
                self.st.live = S0.live
                for k in ch:
                    self.st.store[k] = mk('cbphi', ctx, k)
                if not ch or pas == 1:
                    for k in ch:
                        self.st.store[k] = mk('cbexit', ctx, S0.store[k], S1.store[k])
                    break
                del self.events[n0:]

    def opaque_call(self, ci, argE, objE, arrow, line, ty):
        q = ci['q']
        nm = lastname(q)
        name = q + ci.get('t', '')
        mcls = strip(ci.get('cls', ''))
        if objE is not None and mcls.startswith(('mlir::', 'llvm::')) and not ci.get('static'):
            name = '.' + nm + ci.get('t', '')
        pm = ci.get('pm', [])
        args = []
        outs = []
        impure = False
        for i, a in enumerate(argE):
            m = pm[i] if i < len(pm) else 'v'
            if a[0] == 'defarg':
                a = a[1]
            if m == 'r':
                loc = self.lv(a)
                v = self.load(loc)
                args.append(v)
                outs.append((i, loc))
            elif m in 'cm':
                if a[0] in ('var', 'member', 'index', 'un', 'gvar', 'call', 'mcall') and a[0] != 'lambda':
                    args.append(self.rv(a))
                else:
                    args.append(self.rv(a))
            elif m == 'p':
                v = self.rv(a)
                args.append(v)
                for x in leafset(v):
                    if x.op == 'addr':
                        l = x.a[0]
                        outs.append((i, l))
                        args[-1] = mk('outarg', i) if self.rootlocal(l) else v
            else:
                args.append(self.rv(a))
        obj = None
        objloc = None
        if objE is not None:
            if arrow:
                obj = self.rv(objE)
                objloc = self.deref(obj)
                if objloc.op in ('var', 'field', 'elem'):
                    obj = self.load(objloc)
                elif objloc in self.st.store:
                    obj = mk('hist', obj, self.st.store[objloc])
                elif objloc.op == 'deref' and self.kids.get(objloc):
                    lv_ = self.load(objloc)
                    if lv_.op == 'obj':
                        obj = mk('hist', obj, lv_)
            else:
                if objE[0] in ('call', 'mcall', 'ctor', 'cond', 'init', 'cast', 'pcall'):
                    if objE[0] in ('call', 'mcall', 'pcall'):
                        obj, byref = self.callexpr(objE)
                        if byref:
                            objloc = self.deref(obj)
                            obj = self.load(objloc)
                    else:
                        obj = self.rv(objE)
                else:
                    objloc = self.lv(objE)
                    obj = self.load(objloc)
        for a in args:
            if a.op == 'lam':
                impure = True
        views = []
        for a in args:
            views.append(self.argview(a))
        if obj is not None and mcls.startswith('mlir::'):
            obj = unas(obj)
        if obj is not None:
            t = mk('call', name, obj, *views)
        else:
            t = mk('call', name, *views)
        mutobj = objE is not None and not (mcls.startswith('mlir::') and not mcls.startswith(('mlir::OperationState', 'mlir::NamedAttrList'))) and not ci.get('const') and not ci.get('static') and not PURE.search('::' + nm)
        ret = ci.get('ret', '')
        if outs or mutobj or impure or strip(ret) == 'void':
            pass
        byref = isref(ret)
        key = t
        if mutobj and objloc is not None and not strip(ret) == 'void':
            pass
        evt = self.event('call', name, args, line=line, res=t, obj=obj, extra=objloc, ret=ret)
        for a in args:
            if a.op == 'lam':
                self.callback(a, t)
        for i, l in outs:
            if l.op == 'ite':
                continue
            base = l
            isctx = False
            self.setv(l, mk('out', t, i), ev=False)
        if mutobj and objloc is not None and objloc.op in ('var', 'field', 'deref', 'elem'):
            root = objloc
            if not (objloc.op == 'deref' and 'TfLiteContext' in ci.get('cls', '')):
                self._set(objloc, mk('upd', self.load(objloc), name, *views))
        if re.search(r'(^|::)(abort|exit|_Exit|quick_exit|__assert_fail|__throw_\w+|terminate|llvm_unreachable_internal|'
                     r'unreachable|__builtin_unreachable|__builtin_trap|report_fatal_error)$', q):
            evt.kind = 'abort'
            self.st.live = FALSE
        if byref:
            return mk('addr', mk('rl', t)), True
        return self.wrap(t, ret), False

    # -------------------------------------------------- builtin models
    MATH = {'TfLiteRound', 'round', 'roundf', 'floor', 'ceil', 'sqrt', 'exp', 'log', 'pow', 'lround', 'nearbyint', 'rint', 'trunc', 'floorf', 'ceilf', 'lrint', 'truncf', 'rintf', 'nearbyintf', 'lroundf'}

    def builtin_fn(self, ci, nm, argE, line, ty):
        q = ci['q']
        if not (q.startswith('std::') or '::' not in q or q.startswith('absl::') or q.startswith('llvm::') or q.startswith('tflite::ruy') or nm == 'TfLiteRound'):
            return None
        if nm in ('min', 'max') and len(argE) == 2:
            x, y = b2i(self.rv(argE[0])), b2i(self.rv(argE[1]))
            t = strip(ci.get('t', '<>').strip('<>').split(',')[0])
            real = isreal(ci['ret'].replace('&', '').strip())
            f = {('min', 0): imin, ('max', 0): imax, ('min', 1): tm.fmin, ('max', 1): tm.fmax}[(nm, int(real))]
            return f(x, y), False
        if nm in ('fminf', 'fmin', 'fmaxf', 'fmax') and len(argE) == 2:
            x, y = self.rv(argE[0]), self.rv(argE[1])
            return (tm.fmin if 'min' in nm else tm.fmax)(x, y), False
        if nm == 'clamp' and len(argE) == 3:
            x, lo, hi = [b2i(self.rv(a)) for a in argE]
            if isreal(ci['ret'].replace('&', '').strip()):
                return tm.fmin(tm.fmax(x, lo), hi), False
            return imin(imax(x, lo), hi), False
        if nm == 'abs' or nm == 'fabs' or nm == 'fabsf':
            x = self.rv(argE[0])
            return tm.iabs(b2i(x)), False
        if nm in self.MATH:
            args = [b2i(self.rv(a)) for a in argE]
            n2 = 'round' if nm in ('TfLiteRound', 'lround', 'lroundf') else nm.rstrip('f')
            return mapn(lambda *xs: c(_fold(n2, *xs)) if _fold(n2, *xs) is not None else mk(n2, *xs), *args), False
        if nm in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof') and len(argE) == 1:
            if nm == 'addressof':
                return self.addrof(self.lv(argE[0])), False
            return self.addrof(self.lv(argE[0])), True
        if q.startswith('std::operator') and nm in ('operator==', 'operator!=') and len(argE) == 2 and 'char' in ci.get('t', '') + str(ci.get('ret')) + q and ('basic_string' in str(ci) or 'char_traits' in ci.get('t', '')):
            v = eqv(self.rv(argE[0]), self.rv(argE[1]))
            return (v if nm == 'operator==' else bnot(v)), False
        if q.startswith('std::operator+') and len(argE) == 2 and 'basic_string' in strip(ci.get('ret', '')):
            return concat(self.rv(argE[0]), self.rv(argE[1])), False
        if nm == 'get' and q.startswith('std::') and len(argE) == 1:
            m = re.match(r'<(\d+)', ci.get('t', ''))
            if m:
                i = int(m.group(1))
                v = self.rv(argE[0])
                bare = v
                if v.op == 'addr':
                    bare = self.load(v.a[0])
                if all(x.op == 'tuple' and i < len(x.a) for x in leafset(bare)):
                    return mapn(lambda x: x.a[i], bare), False
                return mapn(lambda x: mk('tget', i, x), bare), False
        if nm in ('operator==', 'operator!=') and len(argE) == 2:
            if nm == 'operator==' and q.startswith('std::operator') and 'iterator' in str(ci.get('params', '')) + str(ci.get('pt', '')) + str(argE[0])[:4000]:
                # one spelling for the comparison of iterators
                args = [self.rv(a) for a in argE]
                t = mk('call', 'std::operator!=', *args)
                self.event('call', 'std::operator!=', args, line=line, res=t)
                return bnot(boolterm(t)), False
            def isnullx(x):
                while x[0] == 'cast':
                    x = x[3]
                return x[0] == 'null' or isnullopt(x)
            for i in (0, 1):
                if isnullx(argE[i]):
                    v = p2b(self.rv(argE[1 - i]))
                    return (v if nm == 'operator!=' else bnot(v)), False
        if nm in ('make_unique', 'make_shared'):
            key = ('mk', ci.get('t', ''))
            args = [self.rv(a) for a in argE]
            t = mk('make', ci.get('t', ''), *args)
            self.event('make', ci.get('t', ''), args, line=line, res=t)
            # run the constructor body where it is available (fields become readable)
            return t, False
        if nm in ('popcount', '__builtin_popcount', '__builtin_popcountl', '__builtin_popcountll'):
            return mapn(lambda x: mk('popcount', tm._su(x)) if not isc(x) else c(bin(x.a[0] & (2**64 - 1)).count('1')), self.rv(argE[0])), False
        if nm in ('__builtin_expect',):
            return self.rv(argE[0]), False
        if nm == 'swap' and len(argE) == 2:
            a, b_ = self.lv(argE[0]), self.lv(argE[1])
            va, vb = self.load(a), self.load(b_)
            self.setv(a, vb, line=line)
            self.setv(b_, va, line=line)
            return mk('void'), False
        if nm in ('begin', 'cbegin') and len(argE) == 1:
            return self.vdata(self.lv(argE[0])), False
        if nm in ('end', 'cend') and len(argE) == 1:
            l = self.lv(argE[0])
            return self.padd(self.vdata(l), self.vsize(l)), False
        if nm in ('distance',) and len(argE) == 2:
            a, b_ = self.rv(argE[0]), self.rv(argE[1])
            return self.pdiff(b_, a), False
        if nm in ('advance', 'next', 'prev') and q.startswith('std::'):
            a = self.rv(argE[0])
            n = self.rv(argE[1]) if len(argE) > 1 else ONE
            if argE[1:2] and argE[1][0] == 'defarg':
                n = self.rv(argE[1][1])
            if nm == 'prev':
                n = neg(n)
            r = self.padd(a, n)
            if nm == 'advance':
                self.setv(self.lv(argE[0]), r)
            return r, False
        if nm == 'make_tuple' or nm == 'make_pair' or nm == 'tie':
            return mk('tuple', *[self.rv(a) for a in argE]), False
        if nm in ('max', 'min', 'lowest') and not argE and 'numeric_limits' in q:
            return self.numlimit(ci, nm), False
        if nm == 'TfLiteIntArrayCopy' and len(argE) == 1:
            # an array of the same length, filled element by element
            src = self.deref(self.rv(argE[0]))
            n = self.load(self.field(src, 'size'))
            t = mk('call', 'TfLiteIntArrayCreate', n)
            self.event('call', 'TfLiteIntArrayCreate', [n], line=line, res=t)
            d, s = self.field(self.deref(t), 'data'), self.field(src, 'data')
            self.synthloop(line, n, lambda i: self.setv(self.elem(d, i), self.load(self.elem(s, i)), line=line))
            return t, False
        if nm in ('memcpy', 'memset', 'memmove', 'fill', 'fill_n', 'copy', 'copy_n', 'transform', 'memcmp', 'accumulate'):
            return self.rangefn(ci, nm, argE, line)
        return None

    def rangefn(self, ci, nm, argE, line):
        args = [self.rv(a) for a in argE]
        if nm in ('fill', 'fill_n', 'copy', 'copy_n', 'memset', 'memcpy', 'memmove'):
            src = val = None
            if nm == 'fill':
                dst, n, val = args[0], self.pdiff(args[1], args[0]), args[2]
            elif nm == 'fill_n':
                dst, n, val = args[0], b2i(args[1]), args[2]
            elif nm == 'copy':
                dst, n, src = args[2], self.pdiff(args[1], args[0]), args[0]
            elif nm == 'copy_n':
                dst, n, src = args[2], b2i(args[1]), args[0]
            else:
                ty = pointee(argE[0])
                sz = BITS.get(ty, 32 if ty == 'float' else 64 if ty == 'double' else 0) // 8
                if ty == 'bool':
                    sz = 1
                n = b2i(args[2])
                if sz:
                    n = exactdiv(n, sz)
                if nm == 'memset':
                    dst, val = args[0], args[1]
                    if isc(val) and val.a[0] in (0, 255, -1) and ty in BITS:
                        val = ZERO if val.a[0] == 0 else c((1 << 8 * sz) - 1) if ty in UNSIGNED else c(-1)
                    elif isc(val) and ty in BITS and sz and ty != 'bool':
                        v = int.from_bytes(bytes([val.a[0] & 255] * sz), 'little')
                        val = c(v if ty in UNSIGNED or v < 1 << (8 * sz - 1) else v - (1 << 8 * sz))
                    elif val is not ZERO:
                        sz = 0
                else:
                    dst, src = args[0], args[1]
                    if pointee(argE[1]) != ty:
                        sz = 0
                if not sz:
                    t = mk('call', ci['q'], *args)
                    self.event('call', ci['q'], args, line=line, res=t)
                    for x in leafset(dst):
                        l = self.deref(x)
                        if l.op == 'elem':
                            l = l.a[0]
                        if not self.rootlocal(l):
                            self.event('store', None, (l, t), line=line)
                        self._set(l, mk('ranged', self.load(l), dst, n, t))
                    return dst, False
            n = mapn(tm._su, n)
            if src is not None and src.op == 'addr' and self.rootlocal(src.a[0]) or dst.op == 'addr' and self.rootlocal(dst.a[0]):
                pass
            self.synthloop(line, n, lambda i: self.setv(self.pelem(dst, i, False), val if src is None else self.load(self.pelem(src, i, False)), line=line))
            return (self.padd(dst, n) if nm in ('copy', 'copy_n', 'fill_n') else dst), False
        t = mk('call', ci['q'] + ci.get('t', ''), *args)
        self.event('call', ci['q'] + ci.get('t', ''), args, line=line, res=t)
        for a in args:
            if a.op == 'lam':
                self.callback(a, t)
        return t, False

    def synthloop(self, line, n, body):
        """for (i = 0; i < n; ++i) body(i), for library functions that are loops"""
        self.tmpn += 1
        it = mk('var', self.frames[-1].uid, -1000000 - self.tmpn, '__i')
        self._set(it, ZERO)
        if n.op == 'ite':
            n = n

        def inc():
            self._set(it, add(self.load(it), ONE))
        self.loop(line, lambda: lt(self.load(it), n), lambda: body(self.load(it)), inc, False)

    def numlimit(self, ci, nm):
        t = strip(re.sub(r'^.*numeric_limits<(.*)>$', r'\1', ci.get('cls', '')))
        if t in BITS:
            n = BITS[t]
            if t in UNSIGNED or t == 'bool':
                return c((1 << n) - 1) if nm == 'max' else ZERO
            return c((1 << (n - 1)) - 1) if nm == 'max' else c(-(1 << (n - 1)))
        if t == 'float':
            M = Fraction((2 - Fraction(1, 2**23)) * 2**127)
            return c(M) if nm == 'max' else (c(-M) if nm == 'lowest' else c(Fraction(1, 2**126)))
        return mk('numlimit', t, nm)

    MVAL = re.compile(r'^mlir::([\w:]*)(Type|Attr|Attribute|Value|Op|OpState|OpResult|OpFoldResult|BlockArgument|Location|Identifier|StringAttr)$|^mlir::detail::TypedValue|^mlir::TypedValue')
    VIEW = re.compile(r'^(llvm::(ArrayRef|MutableArrayRef|StringRef|Twine)|mlir::(ValueRange|TypeRange|OperandRange|ResultRange|ValueTypeRange|Block(Range|ArgListType)|RegionRange|SmallVector))\b')
    CASTS = {'dyn_cast', 'cast', 'isa', 'dyn_cast_or_null', 'cast_or_null', 'isa_and_nonnull', 'dyn_cast_if_present', 'cast_if_present', 'isa_and_present'}

    def castto(self, nm, ts, v):
        def one(t, x):
            if x is NULL:
                return x
            if x.op == 'as' and x.a[0] == t:
                return x
            return mk('as', t, x)
        if nm.startswith('isa'):
            return bor(*[p2b(mapn(lambda x: one(t, x), v)) for t in ts])
        return mapn(lambda x: one(ts[0], x), v)

    def tmplargs(self, t):
        t = t.strip()
        if t.startswith('<') and t.endswith('>'):
            t = t[1:-1]
        out, d, cur = [], 0, ''
        for ch in t:
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
            d += ch in '<(' 
            d -= ch in '>)'
            cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    COUNTS = {'getNumArguments': '.getArguments', 'getNumOperands': '.getOperands', 'getNumResults': '.getResults',
              'getNumInputs': '.getInputs', 'getRank': '.getShape'}
    ITEMS = {'getArgument': '.getArguments', 'getOperand': '.getOperands', 'getResult': '.getResults', 'getInput': '.getInputs',
             'isDynamicDim': '.getShape', 'getDimSize': '.getShape'}

    def mlir_call(self, ci, nm, argE, objE, arrow, line, ty):
        """normal forms of the LLVM casting / LogicalResult idioms"""
        q, cls = ci['q'], strip(ci.get('cls', ''))
        if not (q.startswith(('mlir::', 'llvm::')) or cls.startswith(('mlir::', 'llvm::'))):
            return None
        if nm in self.CASTS and ci.get('t'):
            ts = self.tmplargs(ci['t'])
            if objE is not None:
                v = self.rv(objE)
            elif len(argE) == 1:
                v = self.rv(argE[0])
                m = ts[1:] and nm.startswith('isa')
                # function form: the last template argument is the deduced operand type
                ts = ts[:-1] if len(ts) > 1 else ts
            else:
                return None
            return self.castto(nm, ts, v), False
        if nm in ('success', 'failure') and objE is None:
            v = TRUE
            if argE:
                a = argE[0][1] if argE[0][0] == 'defarg' else argE[0]
                v = i2b(self.rv(a))
            return (v if nm == 'success' else bnot(v)), False
        if nm in ('succeeded', 'failed') and 'failableParser' not in q:
            v = i2b(self.rv(objE if objE is not None else argE[0]))
            return (v if nm == 'succeeded' else bnot(v)), False
        if objE is not None and not arrow and (nm.startswith('operator bool') or nm == 'operator!') and self.MVAL.match(cls):
            v = p2b(self.rv(objE))
            return (bnot(v) if nm == 'operator!' else v), False
        if objE is not None and not argE and (nm == 'vec' or nm.startswith(('operator vector', 'operator SmallVector', 'operator std::vector'))):
            return self.rv(objE), False
        if objE is None and nm == 'to_vector' and len(argE) == 1:
            return self.rv(argE[0]), False
        if objE is not None and len(argE) == 1 and (nm in ('setFunctionTypeAttr', 'setFunctionType') or nm == 'setType' and 'FuncOp' in cls):
            a = self.rv(argE[0])
            if nm == 'setFunctionTypeAttr' and a.op == 'call' and a.a[0] == 'mlir::TypeAttr::get':
                a = a.a[1]
            o = self.rv(objE)
            if o.op == 'addr' or arrow:
                o = self.load(self.deref(o))
            self.event('call', '.setFuncType', [a], line=line, obj=o)
            return mk('void'), False
        if objE is not None and nm in ('operator==', 'operator!=') and self.MVAL.match(cls) and len(argE) == 1:
            v = eqv(unas(self.rv(objE)), unas(self.rv(argE[0])))
            return (v if nm == 'operator==' else bnot(v)), False
        if objE is None and nm in ('operator==', 'operator!=') and len(argE) == 2 and q.startswith(('mlir::', 'llvm::')) and \
                not any(isnullE(x) for x in argE):
            v = eqv(unas(self.rv(argE[0])), unas(self.rv(argE[1])))
            return (v if nm == 'operator==' else bnot(v)), False
        if 'StringSwitch<' in cls and objE is not None:
            return self.strswitch(nm, argE, objE, arrow)
        if cls.startswith('llvm::StringRef') and objE is not None:
            o = (lambda: self.load(self.deref(self.rv(objE)))) if arrow else (lambda: self.rv(objE))
            if nm in ('str', 'data') and not argE or nm.startswith('operator '):
                return o(), False
            if nm == 'equals':
                return eqv(o(), self.rv(argE[0])), False
            if nm in ('drop_front', 'drop_back', 'substr', 'take_front', 'take_back', 'startswith', 'starts_with', 'endswith', 'ends_with', 'consume_front', 'empty', 'size'):
                v = o()
                if v.op == 'str' and nm != 'consume_front':
                    xs = [self.rv(a[1] if a[0] == 'defarg' else a) for a in argE]
                    s = unq(v)
                    if nm in ('empty', 'size'):
                        return (c(len(s)) if nm == 'size' else b(not s)), False
                    if nm in ('startswith', 'starts_with', 'endswith', 'ends_with') and xs[0].op == 'str':
                        return b(s.startswith(unq(xs[0])) if nm.startswith('start') else s.endswith(unq(xs[0]))), False
                    if all(isc(x) for x in xs):
                        n = xs[0].a[0] if xs else 1
                        r = {'drop_front': s[n:], 'drop_back': s[:len(s) - n], 'take_front': s[:n], 'take_back': s[len(s) - n:],
                             'substr': s[n:][:xs[1].a[0]] if len(xs) > 1 and nm == 'substr' else s[n:]}[nm]
                        return quo(r), False
        if objE is not None and not argE and isop(cls) and (nm in ('getOperation', 'operator->') or nm.startswith('operator Operation *') or nm.startswith('operator mlir::Operation *')):
            v = self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)
            return unas(v), False
        if objE is not None and not argE and nm.startswith('operator ') and self.MVAL.match(cls) and not arrow and not isop(cls):
            return self.rv(objE), False
        if objE is not None and nm == 'notifyMatchFailure':
            return FALSE, False
        if objE is not None and nm == 'getDefiningOp' and ci.get('t') and not argE:
            v = self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)
            d = mapn(lambda x: mk('call', '.getDefiningOp', unas(x)), v)
            return self.castto('dyn_cast_or_null', self.tmplargs(ci['t']), d), False
        m = re.match(r'getI(\d+)Type$', nm)
        if objE is not None and m and not argE:
            v = self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)
            return mk('call', '.getIntegerType', v, c(int(m.group(1)))), False
        if objE is None and nm == 'zip' and argE:
            return mk('zip', *[self.rv(a) for a in argE]), False
        if nm == 'size' and objE is not None and not argE and RANGE.match(cls):
            return mapn(rsize, self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)), False
        if objE is not None and nm in self.COUNTS and not argE or nm in self.ITEMS and len(argE) == 1:
            v = self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)
            meth = (self.COUNTS if not argE else self.ITEMS)[nm]
            l = self.tmploc(mapn(lambda x: mk('call', meth, unas(x)), v))
            # lists of types and block arguments are arrays, operand and result ranges are not
            vec = meth in ('.getArguments', '.getInputs', '.getShape') or 'FunctionType' in cls
            if not argE:
                return (self.vsize(l) if vec else mapn(rsize, self.load(l))), False
            i = b2i(self.rv(argE[0]))
            r = self.load(self.elem(self.field(l, '#d') if vec else l, i))
            return (eqv(r, c(-2 ** 63)) if nm == 'isDynamicDim' else r), False
        if nm == 'isDynamic' and 'ShapedType' in q and len(argE) == 1:
            return eqv(self.rv(argE[0]), c(-2 ** 63)), False
        if nm == 'getNumElements' and objE is not None and not argE:
            n = mapn(lambda x: mk('call', '.getNumElements', unas(x)), self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE))
            for x in leafset(n):
                NN.add(x)
            return n, False
        if nm == 'operator[]' and objE is not None and len(argE) == 1 and RANGE.match(cls):
            loc = self.deref(self.rv(objE)) if arrow else self.lv(objE)
            return self.addrof(self.elem(loc, b2i(self.rv(argE[0])))), True
        return None

    def strswitch(self, nm, argE, objE, arrow):
        v = self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)
        if v.op != 'ssw':
            return None
        if nm in ('Case', 'Cases'):
            xs = [self.rv(a) for a in argE]
            return mk('ssw', v.a[0], v.a[1] + tuple((x, xs[-1]) for x in xs[:-1])), False
        if nm == 'Default' or nm.startswith('operator '):
            r = self.rv(argE[0]) if nm == 'Default' else mk('undef')
            for l, x in reversed(v.a[1]):
                r = ite(eqv(v.a[0], l), x, r)
            return r, False
        return None

    VEC = re.compile(r'^(std::vector<|llvm::SmallVector|llvm::SmallVectorImpl|std::array<|llvm::SmallVectorTemplate|llvm::ArrayRef|llvm::MutableArrayRef|absl::Span|std::initializer_list|std::basic_string<)')
    PTR = re.compile(r'^(std::unique_ptr|std::shared_ptr|std::__shared_ptr|std::optional|std::_Optional|llvm::Optional|mlir::OwningOpRef|std::reference_wrapper|std::__uniq_ptr)')

    def vfield(self, loc, n):
        return self.field(loc, n)

    def vsize(self, loc):
        def f(l):
            v = self.raw(l)
            ty = None
            r = self.load(mk('field', l, '#n'))
            return r
        r = mapn(f, loc)
        for x in leafset(r):
            if x.op in ('init', 'fld', 'call', 'sel'):
                NN.add(x)
        return r

    def vdata(self, loc):
        def f(l):
            fl = mk('field', l, '#d')
            self.arrs.add(fl)
            return mk('addr', fl)
        return mapn(f, loc)

    def builtin_method(self, ci, nm, argE, objE, arrow, line, ty):
        cls = strip(ci.get('cls', ''))
        if nm == 'count' and re.match(r'std::bitset<', cls):
            v = self.rv(objE)
            if v.op == 'ctor' and len(v.a) == 2:
                x = v.a[1]
                return mk('popcount', tm._su(x)) if not isc(x) else c(bin(x.a[0] & (2**64 - 1)).count('1')), False
            return None
        if self.PTR.match(cls):
            def oloc():
                return self.deref(self.rv(objE)) if arrow else self.lv(objE)
            if nm in ('get', 'operator->', 'operator*', 'value', 'operator bool', 'has_value') or nm.startswith('operator bool'):
                if arrow:
                    v = self.load(self.deref(self.rv(objE)))
                else:
                    v = self.rv(objE)
                if 'bool' in nm or nm == 'has_value':
                    return p2b(v), False
                if 'optional' in cls.lower():
                    if nm == 'operator->':
                        return self.addrof(self.lv(objE)), False
                    if nm in ('operator*', 'value'):
                        return self.addrof(self.lv(objE)), True
                if nm == 'operator*':
                    return v, True
                return v, False
            if nm == 'value_or' and len(argE) == 1:
                v = self.load(self.deref(self.rv(objE))) if arrow else self.rv(objE)
                return ite(p2b(v), v, self.rv(argE[0])), False
            if nm == 'reset':
                v = self.rv(argE[0]) if argE and argE[0][0] != 'null' else NULL
                self.setv(oloc(), v, line=line)
                return mk('void'), False
            if nm == 'release':
                l = oloc()
                v = self.load(l)
                self.setv(l, NULL, line=line)
                return v, False
            if nm == 'operator=':
                self.setv(oloc(), self.rv(argE[0]), line=line)
                return self.addrof(oloc()), True
            return None
        if self.VEC.match(cls):
            if cls.startswith('std::array'):
                l = self.deref(self.rv(objE)) if arrow else self.lv(objE)
                if nm in ('operator[]', 'at', '__at'):
                    for x in leafset(l):
                        self.arrs.add(x)
                    return self.addrof(self.elem(l, b2i(self.rv(argE[0])))), True
                if nm in ('data', 'begin'):
                    for x in leafset(l):
                        self.arrs.add(x)
                    return self.addrof(l), False
                mm = re.search(r', (\d+)', cls)
                if nm in ('size', 'max_size') and mm:
                    return c(int(mm.group(1))), False
                if nm == 'end' and mm:
                    return self.padd(self.addrof(l), c(int(mm.group(1)))), False
                if nm == 'fill':
                    self._set(l, mk('fill', self.rv(argE[0])))
                    return mk('void'), False
                return None
            if cls.startswith('std::basic_string'):
                if nm not in ('size', 'length', 'empty', 'data', 'c_str', 'operator='):
                    return None
                if nm in ('data', 'c_str'):
                    return self.rv(objE), False
                if nm == 'operator=':
                    l = self.lv(objE)
                    v = self.rv(argE[0])
                    self.setv(l, v, line=line)
                    return self.addrof(l), True
                return None
            l = self.deref(self.rv(objE)) if arrow else self.lv(objE)
            if nm == 'size':
                return self.vsize(l), False
            if nm == 'empty':
                return eqv(self.vsize(l), ZERO), False
            if nm in ('data', 'begin', 'cbegin'):
                return self.vdata(l), False
            if nm in ('end', 'cend'):
                return self.padd(self.vdata(l), self.vsize(l)), False
            if nm in ('operator[]', 'at'):
                i = b2i(self.rv(argE[0]))
                return self.addrof(self.elem(self.field(l, '#d'), i)), True
            if nm == 'front':
                return self.addrof(self.elem(self.field(l, '#d'), ZERO)), True
            if nm == 'back':
                return self.addrof(self.elem(self.field(l, '#d'), sub(self.vsize(l), ONE))), True
            if nm in ('push_back', 'emplace_back'):
                n = self.vsize(l)
                v = self.rv(argE[0]) if len(argE) == 1 else mk('tuple', *[self.rv(a) for a in argE])
                self.event('vec', nm, (l, v), line=line)
                self._set(self.elem(self.field(l, '#d'), n), v)
                self.setv(self.field(l, '#n'), add(n, ONE), ev=False)
                return mk('void'), False
            if nm in ('resize', 'assign'):
                n = mapn(tm._su, b2i(self.rv(argE[0])))
                if nm == 'assign' and len(argE) == 2 and ci['pm'][0] == 'v' and not strip_e_int(argE[0]):
                    return None
                if nm == 'assign' and len(argE) == 1:
                    v = self.rv(argE[0])
                    self.setv(l, mk('ctor', cls, v), line=line)
                    return mk('void'), False
                empty = nm == 'resize' and self.vsize(l) is ZERO
                self.event('vec', nm, (l, n) + tuple(self.rv(a) for a in argE[1:]), line=line)
                self.setv(self.field(l, '#n'), n, ev=l.op != 'ite', line=line)
                if nm == 'assign':
                    self.setv(self.field(l, '#d'), mk('fill', self.rv(argE[1])), ev=l.op != 'ite', line=line)
                elif empty and not self.rootlocal(l) and (len(argE) > 1 or re.search(r'vector<(\w|:| )*(int|float|double|char|short|long)(8_t|16_t|32_t|64_t)?\b *[,>]', cls)):
                    # everything in it is new
                    self.setv(self.field(l, '#d'), mk('fill', self.rv(argE[1]) if len(argE) > 1 else ZERO), ev=l.op != 'ite', line=line)
                return mk('void'), False
            if nm == 'clear':
                self.event('vec', nm, (l,), line=line)
                self.setv(self.field(l, '#n'), ZERO, ev=False)
                return mk('void'), False
            if nm in ('reserve', 'shrink_to_fit'):
                return mk('void'), False
            if nm in ('drop_back', 'take_front') and len(argE) <= 1:
                n = b2i(self.rv(argE[0])) if argE else ONE
                return mk('agg', cls, (('#n', sub(self.vsize(l), n) if nm == 'drop_back' else n), ('#d', self.load(self.field(l, '#d'))))), False
            if nm == 'operator=':
                v = self.rv(argE[0])
                if v.op in ('ilist', 'arr'):
                    v = mk('agg', cls, (('#n', c(len(v.a))), ('#d', mk('arr', *v.a))))
                self.setv(l, v, line=line)
                return self.addrof(l), True
            return None
        if cls.startswith('std::function') and nm == 'operator()':
            v = self.rv(objE)
            if v.op == 'lam':
                return self.call_lambda(v, argE, line), False
            return None
        if nm == 'operator=' and len(argE) == 1 and 'accessor' in cls:
            # assignment through a proxy: an effect on whatever the proxy stands for
            o, v = self.rv(objE), self.rv(argE[0])
            self.event('call', 'accessor::assign', (v,), line=line, obj=o)
            return o, False
        if nm == 'operator=' and len(argE) == 1:
            l = self.deref(self.rv(objE)) if arrow else self.lv(objE)
            v = self.rv(argE[0])
            self.setv(l, v, line=line)
            return self.addrof(l), True
        if cls.startswith('__gnu_cxx::__normal_iterator') or cls.startswith('std::_Bit_iterator'):
            if nm == 'operator*':
                return self.rv(objE), True
            if nm == 'operator->':
                return self.rv(objE), False
            if nm in ('operator++', 'operator--'):
                l = self.lv(objE)
                old = self.load(l)
                new = self.padd(old, ONE if nm[-1] == '+' else c(-1))
                self.setv(l, new)
                if argE:
                    return old, False
                return self.addrof(l), True
            if nm in ('operator+', 'operator-') and argE:
                n = b2i(self.rv(argE[0]))
                return self.padd(self.rv(objE), n if nm[-1] == '+' else neg(n)), False
            if nm in ('operator+=', 'operator-=') and argE:
                n = b2i(self.rv(argE[0]))
                l = self.lv(objE)
                self.setv(l, self.padd(self.load(l), n if nm[-2] == '+' else neg(n)))
                return self.addrof(l), True
            if nm == 'operator[]':
                return self.addrof(self.pelem(self.rv(objE), b2i(self.rv(argE[0])), False)), True
        return None

    # ------------------------------------------------------------ statements
    def ex(self, s):
        if s is None or self.st.live is FALSE:
            return
        self.tick()
        getattr(self, 's_' + s[0], self.s_unk)(s)

    def s_unk(self, s):
        self.warn.add('stmt %s' % (s[2] if len(s) > 2 else s[0]))

    def s_block(self, s):
        for x in s[2]:
            if self.st.live is FALSE:
                return
            self.ex(x)

    def s_expr(self, s):
        self.rv(s[2])

    def s_decl(self, s):
        fr = self.frames[-1]
        for d in s[2]:
            if d['ref']:
                init = d['init']
                fr.env[d['id']] = self.lv(init)
                continue
            l = mk('var', fr.uid, d['id'], d['name'])
            self.snap[('type', l)] = d.get('type')
            fr.env[d['id']] = l
            if d.get('array') is not None:
                self.arrs.add(l)
            if (self.tu.records.get(strip(d['type'])) or {}).get('union'):
                self.unions[l] = strip(d['type'])
            if d['static']:
                q = d['name']
                if d['init'] is not None:
                    self._set(l, self.rv(d['init']))
                continue
            init = d['init']
            if init is None:
                self._set(l, mk('undef'))
            elif init[0] == 'ctor':
                ty = strip(init[1])
                if ty in self.tu.records and not ty.startswith('std::'):
                    self.construct(init, l)
                else:
                    self._set(l, self.opq_ctor(init))
            else:
                v = self.rv(init)
                if strip(d['type']) == 'bool':
                    v = i2b(v)
                self._set(l, v)

    def branch(self, cn, fa, fb):
        if cn is TRUE:
            fa()
            return
        if cn is FALSE:
            fb()
            return
        S0 = self.st
        A = S0.copy()
        A.live = band(A.live, cn)
        Bs = S0.copy()
        Bs.live = band(Bs.live, bnot(cn))
        self.st = A
        if A.live is not FALSE:
            fa()
        A = self.st
        self.st = Bs
        if Bs.live is not FALSE:
            fb()
        Bs = self.st
        self.st = self.merge(cn, A, Bs)

    def s_if(self, s):
        cn = i2b(self.rv(s[2]))
        if self.st.live is FALSE:
            return
        self.branch(cn, lambda: self.ex(s[3]), lambda: self.ex(s[4]))

    def s_return(self, s):
        fr = self.frames[-1]
        if s[2] is None:
            v = mk('void')
        elif isref(fr.fn['ret']):
            v = self.addrof(self.lv(s[2]))
        else:
            v = self.rv(s[2])
            if strip(fr.fn['ret']) == 'bool':
                v = i2b(v)
        if self.st.live is FALSE:
            return
        self.do_return(v)

    def do_return(self, v):
        fr = self.frames[-1]
        fr.rets.append((self.st.live, v, self.st.copy()))
        fr.__dict__.setdefault('retev', []).append(self.event('return', None, (v,), extra=fr))
        self.st.live = FALSE

    def s_break(self, s):
        if self.brk:
            self.brk[-1].append((self.st.live, self.st.copy()))
        self.st.live = FALSE

    def s_continue(self, s):
        if self.cont:
            self.cont[-1].append((self.st.live, self.st.copy()))
        self.st.live = FALSE

    def join(self, snaps):
        """merge the current state with (guard, state) snapshots"""
        S = self.st
        for g, s in reversed(snaps):
            if S.live is FALSE:
                S = s.copy()
                S.live = g
            else:
                s2 = s.copy()
                s2.live = g
                S = self.merge(g, s2, S)
        self.st = S

    def s_try(self, s):
        self.ex(s[2])

    def s_asm(self, s):
        v = self.tiny_asm(s)
        if v is not None:
            self.setv(self.lv(s[3][0][1]), v, ev=False)
            return
        self.event('asm', None, [], line=s[1], extra=s)
        for o in s[3]:
            try:
                l = self.lv(o[1])
                self.setv(l, mk('asmout', s[1], o[0], str(o[2])), ev=False)
            except Exception:
                pass

    def tiny_asm(self, s):
        """meaning of the one-instruction helpers of 32-bit ARM: saturation and conversion with rounding"""
        if len(s[3]) != 1 or len(s[4]) != 1:
            return None
        t = ' ; '.join(' '.join(x.split()) for x in re.split(r'[\n;]', s[2].replace('\\n', '\n')) if x.strip())
        out, inp = [[str(x) for x in o if isinstance(x, str)] for o in (s[3][0], s[4][0])]
        on = lambda n, l: n in l
        m = re.fullmatch(r'ssat %\[(\w+)\], #(\d+), %\[(\w+)\](?:, asr %\[\w+\])?', t)
        if m and ', asr' not in t and on(m.group(1), out) and on(m.group(3), inp):
            n = int(m.group(2))
            return tm.imax(tm.imin(b2i(self.rv(s[4][0][1])), c((1 << (n - 1)) - 1)), c(-(1 << (n - 1))))
        m = re.fullmatch(r'vcvtr\.s32\.f32 %\[(\w+)\], %\[\1\] ; vmov %\[(\w+)\], %\[\1\]', t)
        if m and on(m.group(2), out) and on(m.group(1), inp):
            return mapn(lambda x: mk('round', x), b2i(self.rv(s[4][0][1])))
        return None

    def s_case(self, s):
        self.ex(s[3])

    def s_default(self, s):
        self.ex(s[2])

    def s_switch(self, s):
        v = self.rv(s[2])
        items = []

        def flat(x):
            labels = []
            while x[0] in ('case', 'default'):
                if x[0] == 'case':
                    labels.append(x[2])
                    x = x[3]
                else:
                    labels.append('default')
                    x = x[2]
            items.append((labels, x))
        if s[3][0] == 'block':
            for x in s[3][2]:
                flat(x)
        else:
            flat(s[3])
        conds = {}
        anyc = FALSE
        for labels, x in items:
            for l in labels:
                if l != 'default':
                    cn = eqv(b2i(v), b2i(self.rv(l)))
                    conds[id(l)] = cn
                    anyc = bor(anyc, cn)
        S0 = self.st
        self.brk.append([])
        cur = St({}, FALSE)
        hasdef = False
        for labels, x in items:
            if labels:
                cn = FALSE
                for l in labels:
                    if l == 'default':
                        hasdef = True
                        cn = bor(cn, bnot(anyc))
                    else:
                        cn = bor(cn, conds[id(l)])
                E = S0.copy()
                E.live = band(S0.live, cn)
                self.st = self.merge(cn, E, cur) if cur.live is not FALSE else E
            else:
                self.st = cur
            if self.st.live is not FALSE:
                self.ex(x)
            cur = self.st
        snaps = self.brk.pop()
        self.st = cur
        if not hasdef:
            E = S0.copy()
            E.live = band(S0.live, bnot(anyc))
            if E.live is not FALSE:
                snaps = snaps + [(E.live, E)]
        self.join(snaps)

    # ------------------------------------------------------------ loops
    def s_loop(self, s):
        ln, cond, body, inc, isdo = s[1], s[2], s[3], s[4], s[5]

        def fcond():
            return i2b(self.rv(cond)) if cond is not None else TRUE

        def fbody():
            self.ex(body)

        def finc():
            if inc is not None and self.st.live is not FALSE:
                self.rv(inc)
        self.loop(ln, fcond, fbody, finc, isdo)

    def s_loopdecl(self, s):
        ln, decl, cond, body = s[1], s[2], s[3], s[4]

        def fcond():
            self.ex(decl)
            return i2b(self.rv(cond))
        self.loop(ln, fcond, lambda: self.ex(body), lambda: None, False)

    def s_rangefor(self, s):
        ln, vd, rng, body = s[1], s[2], s[3], s[4]
        fr = self.frames[-1]
        it = mk('var', fr.uid, -vd['id'], '__it')

        ty = rng[4] if rng[0] == 'var' else ''
        mm = re.search(r'\[(\d+)\]$', ty)
        r = rng
        if rng[0] in ('init', 'ctor'):
            v = self.rv(rng)
            loc = self.tmploc(v)
        else:
            loc = self.lv(rng)
            v = self.load(loc)
        els = None
        if v.op in ('ilist', 'arr'):
            els = list(v.a)
        elif v.op == 'agg' and dict(v.a[1]).get('#d') is not None and dict(v.a[1])['#d'].op == 'arr':
            els = list(dict(v.a[1])['#d'].a)
        isvec = False
        zipped = None
        if v.op == 'zip':
            zipped = [self.tmploc(x) for x in v.a]
            n = rsize(v.a[0])
        elif els is not None and len(els) <= UNROLL:
            n = c(len(els))
        elif mm:
            n = c(int(mm.group(1)))
        else:
            t = strip(etype(rng))
            isvec = bool(self.VEC.match(t)) and not t.startswith('std::array')
            if isvec:
                n = self.vsize(loc)
            else:
                n = rsize(v)
        self.st.store[it] = ZERO

        def fcond():
            return lt(self.st.store[it], n)

        def fbody():
            i = self.st.store[it]
            if zipped:
                l = self.tmploc(mk('tuple', *[self.load(self.elem(z, i)) for z in zipped]))
            elif els is not None and isc(i):
                l = self.tmploc(els[i.a[0]])
            elif isvec:
                l = self.elem(self.field(loc, '#d'), i)
            else:
                l = self.elem(loc, i)
            if vd['ref']:
                fr.env[vd['id']] = l
            else:
                x = mk('var', fr.uid, vd['id'], vd['name'])
                fr.env[vd['id']] = x
                self._set(x, self.load(l))
            self.ex(body)

        def finc():
            self.st.store[it] = add(self.st.store[it], ONE)
        self.loop(ln, fcond, fbody, finc, False)

    def loop(self, ln, fcond, fbody, finc, isdo):
        S0 = self.st.copy()
        n0 = len(self.events)
        occ0 = dict(self.occ)
        nret0 = len(self.frames[-1].rets)
        brks = []
        ok = False
        steps0 = self.steps
        for it in range(UNROLL + 1):
            if not (isdo and it == 0):
                cn = fcond()
                if self.st.live is FALSE:
                    ok = True
                    break
                if cn is FALSE:
                    ok = True
                    break
                if cn is not TRUE or it == UNROLL:
                    break
            self.brk.append([])
            self.cont.append([])
            fbody()
            bs, cs = self.brk.pop(), self.cont.pop()
            brks += bs
            self.join(cs)
            if self.st.live is FALSE:
                ok = True
                break
            finc()
            if isdo:
                cn = fcond()
                if cn is FALSE:
                    ok = True
                    break
                if cn is not TRUE:
                    break
            if self.steps - steps0 > 60000:
                break
        if ok:
            self.join(brks)
            return
        # generic summary
        self.st = S0
        del self.events[n0:]
        self.occ = occ0
        del self.frames[-1].rets[nret0:]
        self.generic(ln, fcond, fbody, finc, isdo)

    def generic(self, ln, fcond, fbody, finc, isdo):
        fr = self.frames[-1]
        S0 = self.st
        depth = len(self.loops) + 1
        L = Loop(depth, ln)
        k = L.k
        outer_prefix = self.prefix
        M = {}          # loc -> mode: ('phi',) | ('iv', step) | ('red', op, g)
        order = []
        n0 = len(self.events)
        occ0 = dict(self.occ)
        nret0 = len(fr.rets)

        def init(l):
            v = S0.store.get(l)
            if v is None:
                v = self.with_store(S0, l)
            return v

        def phi(l):
            return mk('phi', depth, order.index(l), l, ln)

        def startval(l):
            m = M[l]
            if m[0] == 'iv':
                return self.padd(init(l), mul(m[1], k)) if m[2] else add(b2i(init(l)), mul(m[1], k))
            return phi(l)

        tested = {}

        def iterate():
            self.st = S0.copy()
            start = {}
            for l in order:
                v = startval(l)
                self.st.store[l] = v
                start[l] = v
            self.prefix = band(outer_prefix, S0.live)
            self.st.live = TRUE
            self.loops.append(L)
            cn = TRUE
            tested.clear()
            if not isdo:
                cn = fcond()
                # what testing the condition does happens once more when the loop ends
                for l in order:
                    v = self.st.store.get(l)
                    if v is not None and v is not start[l]:
                        tested[l] = v
            self.brk.append([])
            self.cont.append([])
            L.cond = cn
            # facts implied by the loop condition hold inside the body
            old = self.prefix
            fbody()
            bs, cs = self.brk.pop(), self.cont.pop()
            self.join(cs)
            if self.st.live is not FALSE:
                finc()
            if isdo and self.st.live is not FALSE:
                cn = fcond()
                L.cond = cn
            self.loops.pop()
            self.prefix = outer_prefix
            return cn, bs, start, self.st

        def isphi(x):
            return x.op == 'phi' and x.a[0] == depth

        def delta(n, p):
            """(step, isptr) with n = p + step, or None"""
            if n is None or n is p or contains(n, lambda x: x.op == 'stm'):
                return None
            if n.op == 'addr' and n.a[0].op == 'elem':
                bn, i_n = n.a[0].a
                bp, ip = (p.a[0].a if p.op == 'addr' and p.a[0].op == 'elem' else
                          (p.a[0] if p.op == 'addr' else mk('deref', p), ZERO))
                if bn is bp:
                    return tm._add(i_n, ip, -1), True
                return None
            if n.op == 'ite' and p.op != 'ite':
                x, y = delta(n.a[1], p), delta(n.a[2], p)
                if x is not None and y is not None and x[1] and y[1]:       # pointers advanced by one of two amounts
                    return ite(tm._node(n.a[0]), x[0], y[0]), True
            if n.op in tm.NONUM or p.op in tm.NONUM:
                return None
            if n.op == 'ite' or p.op == 'ite':
                if p.op == 'ite' and n.op == 'ite':
                    if n.a[0] is p.a[0]:
                        x, y = delta(n.a[1], p.a[1]), delta(n.a[2], p.a[2])
                        if x is not None and y is not None and x[0] is y[0] and x[1] == y[1]:
                            return x
                        if x is not None and y is not None and x[1] and y[1]:
                            return ite(tm._node(n.a[0]), x[0], y[0]), True
                    try:
                        return sub(n, p), False
                    except Exception:
                        return None
                return None
            return tm._add(tm._su(n), tm._su(p), -1), False

        def good(d):
            return d is not None and not contains(d[0], lambda x: isphi(x) or x is k) and (d[0].op != 'ite' or d[1])

        # locals declared inside the body are not loop-carried
        for pas in range(14):
            del self.events[n0:]
            del fr.rets[nret0:]
            self.occ = dict(occ0)
            cn, bs, start, S1 = iterate()
            sts = [S1.store] if S1.live is not FALSE else []
            sts += [s.store for g, s in bs]
            ch = False
            for sto in sts:
                for l, v in list(sto.items()):
                    base = start.get(l)
                    if base is None:
                        base = S0.store.get(l)
                        if base is None:
                            r = l
                            while r.op in ('field', 'elem'):
                                r = r.a[0]
                            if r.op == 'var' and r not in S0.store:
                                continue
                            base = self.with_store(S0, l)
                    if v is not base and l not in M:
                        order.append(l)
                        ch = True
                        d = delta(S1.store.get(l), base) if S1.live is not FALSE else None
                        M[l] = ('iv', d[0], d[1]) if good(d) and not bs else ('phi',)
            if S1.live is not FALSE:
                for l in order:
                    if l not in start:
                        continue
                    d = delta(S1.store.get(l), start[l])
                    m = M[l]
                    if m[0] == 'iv':
                        if not (d is not None and d[0] is m[1]):
                            if S1.store.get(l) is start[l] and False:
                                continue
                            M[l] = ('phi', 1)
                            ch = True
                    elif len(m) == 1 and good(d):
                        M[l] = ('iv', d[0], d[1])
                        ch = True
            if not ch:
                break
        L.trip = self.trip(cn, k, isdo)
        L.breaks = bool(bs)
        L.isdo = isdo
        L.brkg = [g for g, _ in bs] + [g for g, _, _ in fr.rets[nret0:]]
        rets = fr.rets[nret0:]
        del fr.rets[nret0:]
        extra = self.extra_cond(cn, k)
        # exit state
        S = S0.copy()
        leaves_early = bool(bs) or bool(rets) or extra is not TRUE
        exit_g = bor(*[g for g, _ in bs]) if bs else FALSE
        for i, l in enumerate(order):
            m = M[l]
            if m[0] == 'phi':
                self.PHI[phi(l)] = (depth, init(l), S1.store.get(l, start.get(l, init(l))) if S1.live is not FALSE else start.get(l, init(l)))
            if m[0] == 'iv' and not leaves_early:
                v = self.padd(init(l), mul(m[1], L.trip)) if m[2] else add(b2i(init(l)), mul(m[1], L.trip))
                if l.op == 'var' and isc(m[1]) and m[1].a[0] == 1 and isc(init(l)) and init(l).a[0] == 0:
                    v = L.trip
            else:
                n = S1.store.get(l) if S1.live is not FALSE else start[l]
                v = None
                if n is not None and not leaves_early:
                    v = self.reduction(l, phi(l), init(l), n, k, L, isphi)
                if v is None:
                    bx = [x for g, s in bs for x in (g, s.store.get(l, start[l]))]
                    if extra is not TRUE and not isdo:
                        bx = [bnot(extra), start[l]] + bx
                    v = mk("carry", depth, i, L.trip, init(l), n if n is not None else mk("undef"), start.get(l, init(l)), *bx)
            if l in tested:
                d = delta(tested[l], start[l])
                if m[0] == 'iv' and not leaves_early and good(d):
                    v = self.padd(v, d[0]) if m[2] else add(b2i(v), d[0])
                else:
                    v = mk('aftertest', depth, i, v)
            S.store[l] = v
            self.dropshadow(S, l)
        lv = S0.live
        for g, v, s in rets:
            ex = boolterm(mk('exists', depth, L.trip, g)) if g is not TRUE else boolterm(mk('nonempty', L.trip))
            if contains(v, lambda x: x is k or isphi(x)):
                v = mk('first', depth, L.trip, g, v)
            s2 = St(dict(S.store), TRUE)
            fr.rets.append((band(lv, ex), v, s2))
            lv = band(lv, bnot(ex))
        S.live = lv
        self.st = S

    def dropshadow(self, S, l):
        pass

    def reduction(self, l, p, init, n, k, L, isphi):
        if init.op in ('obj', 'arr', 'stm', 'agg', 'agg0', 'zarr', 'fill', 'undef'):
            return None
        d = None
        try:
            d = mapn(lambda x: tm._add(b2i(x), p, -1) if x.op not in ('addr', 'null', 'stm') else mk('phi', L.depth, -1, p), n)
        except Exception:
            return None
        if not contains(d, isphi):
            return add(init, self.mksum(d, k, L))
        # associative bit operations and min/max
        if n.op in ('bor', 'band', 'bxor') and p in n.a:
            rest = [x for x in n.a if x is not p]
            r = rest[0] if len(rest) == 1 else mk(n.op, *rest)
            if not contains(r, isphi):
                return mk('red', n.op, L.k, L.trip, init, r)
        if n.op == 'red' and n.a[3] is p and n.a[0] in ('bor', 'band', 'bxor', 'max', 'min') and not contains(n.a[4], isphi):
            return mk('red', n.a[0], L.k, L.trip, init, mk('red', n.a[0], n.a[1], n.a[2], mk('ident'), n.a[4]))
        if n.op == 'poly':
            for x in subterms(n):
                if x.op == 'relu':
                    # n = max(p,g) = g + relu(p-g)  or  p + relu(g-p)
                    for g in (tm._add(p, x.a[0], -1), tm._add(p, x.a[0])):
                        if not contains(g, isphi):
                            for nm, f in (('max', imax), ('min', imin)):
                                if n is f(p, g):
                                    return mk('red', nm, L.k, L.trip, init, g)
        return None

    def mksum(self, d, k, L):
        if d.op == 'ite':
            s = mk('sum', k, L.trip, d)
            return s
        out = ZERO
        for m, co in lin(d).items():
            inv, var = [], []
            for x, e in m:
                (var if contains(x, lambda y: y is k) else inv).append((x, e))
            invt = frompoly({tuple(inv): co})
            if var:
                out = add(out, mul(invt, mk('sum', k, L.trip, frompoly({tuple(var): 1}))))
            else:
                out = add(out, mul(invt, L.trip))
        return out

    def extra_cond(self, cn, k):
        """part of the loop condition that is not the trip-count test"""
        if cn is TRUE:
            return TRUE
        if cn.op == 'ite':
            a, h, l = cn.a
            if l is FALSE and contains(a, lambda x: x is k):
                return h
            if h is FALSE and contains(a, lambda x: x is k):
                return l
            if l is FALSE and not contains(a, lambda x: x is k):
                return self.extra_cond(h, k)
        return cn

    def trip(self, cn, k, isdo):
        n = self.trip0(cn, k)
        if n is None:
            return add(mk('trip', k, cn), ONE) if isdo else mk('trip', k, cn)
        if isdo:
            n = add(imax(n, ZERO), ONE)
        return n

    def trip0(self, cn, k):
        if cn.op != 'ite':
            return None
        a, h, l = cn.a
        if not contains(a, lambda x: x is k):
            if l is FALSE:
                return self.trip0(h, k)
            if h is FALSE:
                return self.trip0(l, k)
            return None
        if l is FALSE:
            pol = True
        elif h is FALSE:
            pol = False
        else:
            return None
        if a.op not in ('ge', 'eqk'):
            return None
        A = ZERO
        R = ZERO
        for m, co in lin(a.a[0]).items():
            if m == ((k, 1),):
                A = add(A, c(co))
            elif any(x is k for x, e in m):
                # symbolic stride: mono containing k linearly
                rest = tuple((x, e) for x, e in m if x is not k)
                if any(e != 1 for x, e in m if x is k):
                    return None
                A = add(A, frompoly({rest: co}))
            else:
                if contains(frompoly({m: co}), lambda x: x is k):
                    return None
                R = add(R, frompoly({m: co}))
        k0 = c(a.a[1])
        sign = None
        if isc(A):
            sign = 1 if A.a[0] > 0 else -1
        elif nonneg(A):
            sign = 1
        elif nonneg(neg(A)):
            sign = -1
        else:
            # assume positive stride polynomial with positive leading coefficient
            sign = 1 if lin(A)[sorted(lin(A), key=tm._monokey)[0]] > 0 else -1
        if a.op == 'ge':
            if pol and sign < 0:        # A*k + R >= k0, A<0
                q = neg(A)
                return add(div(sub(R, k0), q), ONE) if not (isc(q) and q.a[0] == 1) else add(sub(R, k0), ONE)
            if not pol and sign > 0:    # A*k + R < k0  -> ceil((k0-R)/A)
                num = sub(k0, R)
                return div(add(num, sub(A, ONE)), A)
            return None
        if pol:
            return None
        # A*k + R != k0
        return div(sub(k0, R), A)

    # ------------------------------------------------------------ entry
    def call_top(self, f, args=None, this=None):
        """evaluate function f on symbolic arguments; returns the value; events/rets kept on self"""
        self.frames = []
        self.uid += 1
        fr = Frame(f, self.uid, {}, this if this is not None else mk('sym', 'this'))
        args = args or {}
        for p in f['params']:
            nm = p['name']
            if p['mode'] in 'rcm':
                fr.env[p['id']] = args.get(nm) or mk('rl', mk('sym', nm))
            else:
                l = mk('var', self.uid, p['id'], nm)
                fr.env[p['id']] = l
                v = args.get(nm)
                if v is None:
                    v = self.wrap(mk('sym', nm), p['type'])
                self._set(l, v)
        self.topframe = fr
        v = self.run(f, fr)
        self.rets = [(g, x) for g, x, s in fr.retlist] if hasattr(fr, 'retlist') else []
        self.value = v
        return v


def etypeof(e):
    op = e[0]
    i = {'cast': 2, 'var': 4, 'gvar': 4, 'member': 4, 'bin': 4, 'cond': 4, 'call': 4, 'mcall': 6, 'un': 4, 'index': 3}.get(op)
    t = e[i] if i is not None and i < len(e) else None
    return t if isinstance(t, str) else ''


def pointee(e):
    """element type an untyped pointer argument points at"""
    while e[0] == 'cast' and 'void' in e[2]:
        e = e[3]
    t = strip(re.sub(r'\bconst\b', '', etypeof(e)))
    if t.endswith('&'):
        t = t[:-1].strip()
    if t.endswith('*'):
        t = t[:-1]
    t = re.sub(r'\[\d*\]$', '', t)
    return strip(re.sub(r'\bconst\b', '', t))


def exactdiv(n, k):
    def f(x):
        d = lin(tm._su(x))
        if all((co / k) == int(co / k) for co in d.values()):
            return frompoly({m: Fraction(co) / k for m, co in d.items()})
        return div(x, c(k))
    return mapn(f, n)


def strip_e_int(e):
    """does expression e have an integral type (as exported)?"""
    op = e[0]
    ty = None
    if op == 'int':
        return True
    if op == 'cast':
        ty = e[2]
    elif op == 'var' or op == 'gvar':
        ty = e[4]
    elif op == 'member':
        ty = e[4]
    elif op == 'bin' or op == 'cond':
        ty = e[4]
    elif op == 'call':
        ty = e[4]
    elif op == 'mcall':
        ty = e[6]
    elif op == 'un':
        ty = e[4]
    elif op == 'index':
        ty = e[3]
    return ty is not None and strip(ty) in BITS


def _fold(n, *xs):
    import math
    if all(isc(x) for x in xs):
        v = [x.a[0] for x in xs]
        if n == 'floor':
            return math.floor(v[0])
        if n == 'ceil':
            return math.ceil(v[0])
        if n in ('round', 'lround'):
            return int(math.floor(abs(v[0]) + Fraction(1, 2))) * (1 if v[0] >= 0 else -1)
    return None
