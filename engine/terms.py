"""Hash-consed value terms, polynomial normal forms and gated (decision-diagram) values.

Everything the evaluator derives from the source is one of these terms:
  c(n)            numeric constant (int or Fraction)
  poly(...)       polynomial over other terms (exponents may be negative for reals)
  ite(atom,h,l)   gated value (an MTBDD node; atoms are ordered by id)
  b(True/False)   boolean leaf
  anything else   an uninterpreted (symbolic) value
Equality of terms is identity (`is`).
"""
from fractions import Fraction
from math import gcd
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ('op', 'a', 'id', 'sup')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_tab = {}
NN = set()          # opaque terms known to be >= 0
NONNULL = {'tflite::GetInput', 'tflite::GetOutput', 'tflite::GetTemporary'}     # opaque calls that return a live object


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab) + 1
        t.sup = None
        _tab[key] = t
    return t


def c(n):
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    return mk('c', n)


TRUE = mk('b', True)
FALSE = mk('b', False)
ZERO = c(0)
ONE = c(1)
NULL = mk('null')


def b(x):
    return TRUE if x else FALSE


def isc(t):
    return t.op == 'c'


# ------------------------------------------------------------------ polynomials
def lin(t):
    if t.op == 'c':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.a)
    if t.op == 'b':
        return {(): 1} if t.a[0] else {}
    return {((t, 1),): 1}


def _num(n):
    if isinstance(n, Fraction) and n.denominator == 1:
        return int(n)
    return n


def _monokey(m):
    return (-sum(e for _, e in m), tuple((x.id, e) for x, e in m))


def frompoly(d):
    d = {m: _num(k) for m, k in d.items() if k != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, k), = d.items()
        if m == ():
            return c(k)
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', *sorted(d.items(), key=lambda x: _monokey(x[0])))


def _add(x, y, s=1):
    if x.op == 'c' and y.op == 'c':
        return c(x.a[0] + s * y.a[0])
    d = lin(x)
    for m, k in lin(y).items():
        d[m] = d.get(m, 0) + s * k
    return frompoly(d)


def _mulmono(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def _mul(x, y):
    if x.op == 'c' and y.op == 'c':
        return c(x.a[0] * y.a[0])
    d = {}
    lx, ly = lin(x), lin(y)
    if len(lx) * len(ly) > 4000:
        return mk('bigmul', x, y)
    for m1, k1 in lx.items():
        for m2, k2 in ly.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + k1 * k2
    return frompoly(d)


def _inv(x):
    l = lin(x)
    if len(l) == 1:
        (m, k), = l.items()
        return frompoly({tuple((t, -e) for t, e in m): Fraction(1) / Fraction(k)})
    # normalise leading coefficient
    if not l:
        return mk('inv', x)
    ms = sorted(l, key=_monokey)
    lead = l[ms[0]]
    n = frompoly({m: Fraction(k) / Fraction(lead) for m, k in l.items()})
    return frompoly({((mk('inv', n), 1),): Fraction(1) / Fraction(lead)})


def _polysub(d, l, mk_):
    d = dict(d)
    d.pop(mk_[0])
    for m, k in l.items():
        d[m] = d.get(m, 0) - k
    return {m: k for m, k in d.items() if k}


def nonneg(t):
    if t.op == 'c':
        return t.a[0] >= 0
    if t in NN:
        return True
    if t.op == 'poly':
        for m, k in t.a:
            if k < 0:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'div':        # x - q*(x/q) + ...
                    x, y = m[0][0].a
                    if y.op == 'c' and y.a[0] == -k and nonneg(x):
                        return nonneg(frompoly(_polysub(dict(t.a), lin(x), (m, k))))
                return False
            for x, e in m:
                if e % 2 and not nonneg(x):
                    return False
        return True
    if t.op == 'div':
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op in ('k', 'popcount', 'u', 'abs', 'relu'):
        return True
    if t.op == 'sum':
        return nonneg(t.a[2])
    if t.op == 'ite':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == 'band':
        return any(nonneg(x) for x in t.a)
    return False


def _div(x, y):
    """integer division (floor; equals C division for the non-negative quantities it is used on)"""
    if y.op == 'c':
        q = y.a[0]
        if q == 1:
            return x
        if q == 0:
            return mk('div', x, y)
        if q == -1:
            return frompoly({m: -k for m, k in lin(x).items()})
        if x.op == 'c':
            v = abs(x.a[0]) // abs(q)
            return c(v if (x.a[0] >= 0) == (q >= 0) else -v)
        if q > 0:
            d, r = {}, {}
            for m, k in lin(x).items():
                if isinstance(k, Fraction):
                    return mk('div', x, y)
                if any(e < 0 for _, e in m):
                    return mk('div', x, y)
                if k % q == 0:
                    d[m] = k // q
                elif m == ():
                    d[m] = k // q
                    r[m] = k % q
                else:
                    r[m] = k
            rem = frompoly(r)
            if rem.op == 'c':
                return frompoly(d)
            if rem.op == 'div' and rem.a[1].op == 'c' and rem.a[1].a[0] > 0:
                rem, y = rem.a[0], c(rem.a[1].a[0] * q)
            dv = mk('div', rem, y)
            d[((dv, 1),)] = d.get(((dv, 1),), 0) + 1
            return frompoly(d)
        return mk('div', x, y)
    if x is y:
        return ONE
    if isc(x) and x.a[0] == 0:
        return ZERO
    ly = lin(y)
    if len(ly) == 1:
        (my, ky), = ly.items()
        inv = tuple((t, -e) for t, e in my)
        d, r = {}, {}
        for m, k in lin(x).items():
            m2 = _mulmono(m, inv)
            if all(e > 0 for _, e in m2) and not isinstance(k, Fraction) and k % ky == 0:
                d[m2] = k // ky
            else:
                r[m] = k
        if not r:
            return frompoly(d)
        if d:
            dv = mk('div', frompoly(r), y)
            d[((dv, 1),)] = d.get(((dv, 1),), 0) + 1
            return frompoly(d)
    return mk('div', x, y)


# ------------------------------------------------------------------ atoms
def _normlin(t):
    """t = s*L + k  with L's leading coefficient 1-normalised by gcd; returns (s, L, k)"""
    d = lin(t)
    k = d.pop((), 0)
    if not d:
        return 0, ZERO, k
    ms = sorted(d, key=_monokey)
    fr = any(isinstance(v, Fraction) for v in d.values())
    if fr:
        g = abs(Fraction(d[ms[0]]))
    else:
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
    s = g if d[ms[0]] > 0 else -g
    L = frompoly({m: Fraction(v) / s if fr else v // s for m, v in d.items()})
    return s, L, k


def _node(atom, pos=True):
    return mk('ite', atom, TRUE if pos else FALSE, FALSE if pos else TRUE)


def _ge0(t):
    s, L, k = _normlin(t)
    if s == 0:
        return b(k >= 0)
    if isinstance(s, Fraction) or isinstance(k, Fraction):
        return _fge0(t)
    if s > 0:
        return _gek(L, -(k // s))          # s*L >= -k  <=> L >= ceil(-k/s)
    return bnot(_gek(L, k // (-s) + 1))    # L <= floor(k/|s|)


def _gek(L, k):
    if nonneg(L) and k <= 0:
        return TRUE
    if L.op == 'relu' and k >= 1:
        return _ge0(_add(L.a[0], c(k), -1))
    return _node(mk('ge', L, k))


def _eq0(t):
    s, L, k = _normlin(t)
    if s == 0:
        return b(k == 0)
    if isinstance(s, Fraction) or isinstance(k, Fraction):
        return _feq0(t)
    if k % s:
        return FALSE
    n = -k // s
    if nonneg(L):
        if n < 0:
            return FALSE
        if n == 0:
            return bnot(_gek(L, 1))
    return _node(mk('eqk', L, n))


def _flin(t):
    d = lin(t)
    k = d.pop((), 0)
    if not d:
        return 0, ZERO, k
    ms = sorted(d, key=_monokey)
    s = Fraction(d[ms[0]])
    L = frompoly({m: Fraction(v) / s for m, v in d.items()})
    return s, L, Fraction(k) / abs(s)


def _fge0(t):
    s, L, k = _flin(t)
    if s == 0:
        return b(k >= 0)
    if s > 0:
        return _node(mk('fge', L, _num(-k)))
    return bnot(_node(mk('fgt', L, _num(k))))


def _fgt0(t):
    s, L, k = _flin(t)
    if s == 0:
        return b(k > 0)
    if s > 0:
        return _node(mk('fgt', L, _num(-k)))
    return bnot(_node(mk('fge', L, _num(k))))


def _feq0(t):
    s, L, k = _flin(t)
    if s == 0:
        return b(k == 0)
    return _node(mk('feq', L, _num(-k if s > 0 else k)))


INTAT = ('ge', 'eqk')
FAT = ('fge', 'fgt', 'feq')


def _group(atom):
    if atom.op in INTAT:
        return ('i', atom.a[0])
    if atom.op in FAT:
        return ('f', atom.a[0])
    if atom.op == 'eq':
        return ('e', atom.a[0])
    return ('o', atom)


def _decide(q, atom, val):
    """does knowing `atom == val` decide atom q? returns True/False/None"""
    if q is atom:
        return val
    if q.op in INTAT and atom.op in INTAT and q.a[0] is atom.a[0]:
        lo, hi, ne = None, None, None
        k = atom.a[1]
        if nonneg(atom.a[0]):
            lo = 0
        if atom.op == 'ge':
            if val:
                lo = k if lo is None else max(lo, k)
            else:
                hi = k - 1
        elif val:
            lo = hi = k
        else:
            ne = k
            if lo is not None and k == lo:
                lo = lo + 1
        k2 = q.a[1]
        if q.op == 'ge':
            if lo is not None and lo >= k2:
                return True
            if hi is not None and hi < k2:
                return False
        else:
            if lo is not None and k2 < lo or hi is not None and k2 > hi or ne == k2:
                return False
            if lo is not None and lo == hi == k2:
                return True
        return None
    if q.op in FAT and atom.op in FAT and q.a[0] is atom.a[0]:
        k = Fraction(atom.a[1])
        k2 = Fraction(q.a[1])
        lo = hi = None
        los = his = False  # strict
        if atom.op == 'fge':
            if val:
                lo = k
            else:
                hi, his = k, True
        elif atom.op == 'fgt':
            if val:
                lo, los = k, True
            else:
                hi = k
        elif val:
            lo = hi = k
        else:
            return False if q.op == 'feq' and k2 == k else None
        if q.op == 'fge':
            if lo is not None and lo >= k2:
                return True
            if hi is not None and (hi < k2 or hi == k2 and his):
                return False
        elif q.op == 'fgt':
            if lo is not None and (lo > k2 or lo == k2 and los):
                return True
            if hi is not None and hi <= k2:
                return False
        else:
            if lo is not None and (k2 < lo or k2 == lo and los):
                return False
            if hi is not None and (k2 > hi or k2 == hi and his):
                return False
            if lo is not None and lo == hi == k2:
                return True
        return None
    if q.op == 'eq' and atom.op == 'eq' and val and q.a[0] is atom.a[0]:
        if distinct(q.a[1], atom.a[1]):
            return False
    return None


def distinct(x, y):
    if x is y:
        return False
    K = ('c', 'str', 'null', 'b')
    if x.op in K and y.op in K:
        return True
    if x.op == 'null' and y.op in ('addr', 'new', 'lam'):
        return True
    if y.op == 'null' and x.op in ('addr', 'new', 'lam'):
        return True
    return False


# ------------------------------------------------------------------ gated values
def support(t):
    if t.op != 'ite':
        return frozenset()
    if t.sup is None:
        s = support(t.a[1]) | support(t.a[2])
        g = _group(t.a[0])
        if g not in s:
            s = s | {g}
        t.sup = s
    return t.sup


_assume = {}


def assume(t, atom, val):
    if t.op != 'ite' or _group(atom) not in support(t):
        return t
    key = (t, atom, val)
    r = _assume.get(key)
    if r is None:
        a, h, l = t.a
        d = _decide(a, atom, val)
        if d is True:
            r = assume(h, atom, val)
        elif d is False:
            r = assume(l, atom, val)
        else:
            h2, l2 = assume(h, atom, val), assume(l, atom, val)
            if h2 is h and l2 is l:
                r = t
            else:
                r = node(a, h2, l2)
        _assume[key] = r
    return r


def node(atom, h, l):
    h = assume(h, atom, True)
    l = assume(l, atom, False)
    if h is l:
        return h
    # keep ordering: children may have smaller tops only if theory simplification moved things
    for ch in (h, l):
        if ch.op == 'ite' and ch.a[0].id < atom.id:
            return _shannon(atom, h, l)
    return mk('ite', atom, h, l)


def _shannon(atom, h, l):
    tops = [x.a[0] for x in (h, l) if x.op == 'ite']
    top = min(tops, key=lambda x: x.id)
    if top.id >= atom.id:
        return mk('ite', atom, h, l)
    ch = node(atom, assume(h, top, True), assume(l, top, True))
    cl = node(atom, assume(h, top, False), assume(l, top, False))
    if ch is cl:
        return ch
    return mk('ite', top, ch, cl)


class Limit(Exception):
    pass


def nodes(t, lim=100000):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            if len(seen) > lim:
                return len(seen)
            st.append(x.a[1])
            st.append(x.a[2])
    return len(seen)


LIFT = 3000


def mapn(f, *vs):
    """lift f over the gated structure of its arguments"""
    if all(v.op != 'ite' for v in vs):
        return f(*vs)
    memo = {}
    cnt = [0]

    def go(vs):
        tops = [v.a[0] for v in vs if v.op == 'ite']
        if not tops:
            return f(*vs)
        r = memo.get(vs)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > LIFT:
            raise Limit()
        top = min(tops, key=lambda x: x.id)
        hi = tuple(assume(v, top, True) for v in vs)
        lo = tuple(assume(v, top, False) for v in vs)
        r = node(top, go(hi), go(lo))
        memo[vs] = r
        return r
    try:
        return go(tuple(vs))
    except Limit:
        return mk('big', f.__name__, *vs)


def _ite3(cn, x, y):
    return x if cn.a[0] else y


def ite(cn, x, y):
    if cn is TRUE:
        return x
    if cn is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return cn
    if cn.op != 'ite':
        return mk('ite?', cn, x, y)
    mm = _minmax(cn, x, y)
    if mm is not None:
        return mm
    memo = {}

    def go(cn, x, y):
        if cn is TRUE:
            return x
        if cn is FALSE:
            return y
        if x is y:
            return x
        if cn.op != 'ite':
            return mk('ite?', cn, x, y)
        k = (cn, x, y)
        r = memo.get(k)
        if r is not None:
            return r
        top = cn.a[0]
        for v in (x, y):
            if v.op == 'ite' and v.a[0].id < top.id:
                top = v.a[0]
        r = node(top, go(assume(cn, top, True), assume(x, top, True), assume(y, top, True)),
                 go(assume(cn, top, False), assume(x, top, False), assume(y, top, False)))
        memo[k] = r
        return r
    return go(cn, x, y)


_not = {}


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op != 'ite':
        return mk('ite', mk('bool', x), FALSE, TRUE)
    r = _not.get(x)
    if r is None:
        r = mk('ite', x.a[0], bnot(x.a[1]), bnot(x.a[2]))
        _not[x] = r
        _not[r] = x
    return r


def band(*xs):
    r = TRUE
    for x in xs:
        if x is TRUE:
            continue
        r = ite(r, x, FALSE)
        if r is FALSE:
            return r
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        if x is FALSE:
            continue
        r = ite(r, TRUE, x)
        if r is TRUE:
            return r
    return r


def implies(x, y):
    return band(x, bnot(y)) is FALSE


# ------------------------------------------------------------------ lifted operations
def _su(x):
    return x.a[0] if x.op == 'u' else x


def add(x, y):
    return mapn(lambda p, q: _add(_su(p), _su(q)), x, y)


def sub(x, y):
    return mapn(lambda p, q: _add(_su(p), _su(q), -1), x, y)


def mul(x, y):
    return mapn(lambda p, q: _mul(_su(p), _su(q)), x, y)


def neg(x):
    return sub(ZERO, x)


def div(x, y):
    return mapn(lambda p, q: _div(_su(p), _su(q)), x, y)


def mod(x, y):
    return sub(x, mul(y, div(x, y)))


def fdiv(x, y):
    return mapn(lambda p, q: _mul(p, _inv(q)), x, y)


def i2b(x):
    """numeric/bool value -> condition"""
    def f(p):
        if p.op == 'b':
            return p
        if p.op == 'c':
            return b(p.a[0] != 0)
        if p.op == 'null':
            return FALSE
        if p.op in ('addr', 'new', 'lam', 'str', 'fnref'):
            return TRUE
        return bnot(_eq0(_su(p)))
    return mapn(f, x)


def p2b(x):
    return bnot(eqv(x, NULL))


def b2i(x):
    return mapn(lambda p: (ONE if p.a[0] else ZERO) if p.op == 'b' else p, x)


def boolterm(t):
    """opaque boolean value -> condition"""
    if t.op in ('b', 'ite'):
        return t
    return _node(mk('bool', t))


def _isnum(p):
    return p.op in ('c', 'poly', 'b')


def _eqleaf(p, q):
    if p is q:
        return TRUE
    if p.op == 'u':
        p = p.a[0]
    if q.op == 'u':
        q = q.a[0]
    if p.op == 'addr' and q.op == 'addr':
        lp, lq = p.a[0], q.a[0]
        bp, ip = (lp.a[0], lp.a[1]) if lp.op == 'elem' else (lp, ZERO)
        bq, iq = (lq.a[0], lq.a[1]) if lq.op == 'elem' else (lq, ZERO)
        if bp is bq:
            return _eq0(_add(ip, iq, -1))
        if bp.op == 'var' and bq.op == 'var':
            return FALSE
    if distinct(p, q) and not (_isnum(p) and _isnum(q)):
        return FALSE
    if p is NULL and q.op == 'call' and q.a[0] in NONNULL or q is NULL and p.op == 'call' and p.a[0] in NONNULL:
        return FALSE
    if p.op in ('null', 'addr', 'str', 'lam', 'fnref') or q.op in ('null', 'addr', 'str', 'lam', 'fnref'):
        x, y = (p, q) if p.id < q.id else (q, p)
        if x.op in ('null', 'str'):
            x, y = y, x
        return _node(mk('eq', x, y))
    return _eq0(_add(p, q, -1))


def eqv(x, y):
    return mapn(_eqleaf, x, y)


def feq(x, y):
    return mapn(lambda p, q: _feq0(_add(p, q, -1)), x, y)


def _ltu(p, q):
    if p.op == 'u' or q.op == 'u':
        p0, q0 = _su(p), _su(q)
        if p.op == 'u' and q.op == 'u':
            return band(_ge0(p0), _ge0(_add(_add(q0, p0, -1), ONE, -1)))
        if p.op == 'u':
            return band(_ge0(p0), _ge0(_add(_add(q0, p0, -1), ONE, -1)))
        # p < u(q)  with q possibly negative (then huge)
        return bor(bnot(_ge0(q0)), _ge0(_add(_add(q0, p0, -1), ONE, -1)))
    return _ge0(_add(_add(q, p, -1), ONE, -1))


def _bi(p):
    return (ONE if p.a[0] else ZERO) if p.op == 'b' else p


def lt(x, y):
    def f(p, q):
        p, q = _bi(p), _bi(q)
        if p.op == 'addr' and q.op == 'addr':
            lp, lq = p.a[0], q.a[0]
            bp, ip = (lp.a[0], lp.a[1]) if lp.op == 'elem' else (lp, ZERO)
            bq, iq = (lq.a[0], lq.a[1]) if lq.op == 'elem' else (lq, ZERO)
            if bp is bq:
                return _ge0(_add(_add(iq, ip, -1), ONE, -1))
        return _ltu(p, q)
    return mapn(f, x, y)


def le(x, y):
    return bnot(lt(y, x))


def gt(x, y):
    return lt(y, x)


def ge(x, y):
    return bnot(lt(x, y))


def flt(x, y):
    return mapn(lambda p, q: _fgt0(_add(_bi(q), _bi(p), -1)), x, y)


def fle(x, y):
    return mapn(lambda p, q: _fge0(_add(_bi(q), _bi(p), -1)), x, y)


def _relu(p):
    """canonical max(p, 0): positive leading coefficient, gcd 1"""
    if p.op == 'c':
        return p if p.a[0] > 0 else ZERO
    if p.op in ('b',):
        return p
    if nonneg(p):
        return p
    d = lin(p)
    if nonneg(frompoly({m: -k for m, k in d.items()})):
        return ZERO
    k0 = d.get((), 0)
    ms = [m for m in sorted(d, key=_monokey) if m != ()]
    if d[ms[0]] < 0:
        n = frompoly({m: -k for m, k in d.items()})
        return _add(_relu(n), n, -1)
    g = 0
    if any(isinstance(v, Fraction) for v in d.values()):
        g = Fraction(d[ms[0]])
    else:
        for v in d.values():
            g = gcd(g, abs(v))
    if g != 1:
        return _mul(c(g), _relu(frompoly({m: Fraction(v) / g if isinstance(g, Fraction) else v // g for m, v in d.items()})))
    # nested saturations
    rs = [(m, k) for m, k in d.items() if len(m) == 1 and m[0][0].op == 'relu' and m[0][1] == 1 and abs(k) == 1]
    if len(rs) == 1:
        m, k = rs[0]
        e = m[0][0].a[0]
        if k == 1:
            rest = frompoly({x: y for x, y in d.items() if x != m})
            if isc(rest):
                return p if rest.a[0] >= 0 else _relu(_add(e, rest))
        else:
            dd = frompoly({x: y for x, y in d.items() if x != m})
            df = _add(dd, e, -1)
            if isc(df) and df.a[0] >= 0:
                return _add(_relu(dd), _relu(e), -1)
    t = mk('relu', p)
    NN.add(t)
    return t


def _num2(f):
    def g(p, q):
        p, q = _bi(p), _bi(q)
        return f(_su(p), _su(q))
    return g


def imax(x, y):
    return mapn(_num2(lambda p, q: _add(q, _relu(_add(p, q, -1)))), x, y)


def imin(x, y):
    return mapn(_num2(lambda p, q: _add(p, _relu(_add(p, q, -1)), -1)), x, y)


fmin = imin
fmax = imax


def iabs(x):
    return mapn(lambda p: _add(_mul(c(2), _relu(_su(p))), _su(p), -1), x)


NONUM = ('null', 'addr', 'str', 'lam', 'fnref', 'new', 'make', 'obj', 'agg', 'agg0', 'arr', 'stm', 'b', 'void', 'undef', 'noret',
         'ilist', 'zarr', 'fill', 'ranged', 'var', 'field', 'elem', 'deref', 'rl', 'gv', 'upd', 'ctor', 'newobj', 'tuple')


def _minmax(cn, x, y):
    """recognise  x op y ? x : y  as min / max"""
    if x.op in NONUM or y.op in NONUM or x.op == 'ite' or y.op == 'ite' or x.op == 'c' and y.op == 'c':
        return None
    if cn.a[1].op != 'b' or cn.a[2].op != 'b':
        return None
    a = cn.a[0]
    if a.op not in ('ge', 'fge', 'fgt', 'eqk'):
        return None
    x, y = _su(x), _su(y)
    d = _add(x, y, -1)
    if d.op == 'c':
        return None
    real = a.op != 'ge' and a.op != 'eqk'
    if real:
        pos, neg_ = (_fge0(d), _fgt0(d)), (_fge0(_mul(c(-1), d)), _fgt0(_mul(c(-1), d)))
    else:
        if any(isinstance(v, Fraction) for v in lin(d).values()):
            return None
        pos, neg_ = (_ge0(d), _ge0(_add(d, ONE, -1))), (_ge0(_mul(c(-1), d)), _ge0(_add(_mul(c(-1), d), ONE, -1)))
    if cn in pos:
        return _add(y, _relu(d))
    if cn in neg_:
        return _add(x, _relu(d), -1)
    return None


# ------------------------------------------------------------------ substitution / inspection
def subst(t, m, memo=None):
    """rebuild t with terms in m replaced (m: {T: T})"""
    if memo is None:
        memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ('c', 'b', 'null', 'str', 'k'):
            r = t
        elif op == 'poly':
            r = ZERO
            for mo, k in t.a:
                v = c(k)
                for x, e in mo:
                    y = go(x)
                    for _ in range(abs(e)):
                        v = mul(v, y) if e > 0 else fdiv(v, y)
                r = add(r, v)
        elif op == 'ite':
            r = ite(go_atom(t.a[0]), go(t.a[1]), go(t.a[2]))
        elif op == 'relu':
            r = imax(go(t.a[0]), ZERO)
        elif op == 'div':
            r = div(go(t.a[0]), go(t.a[1]))
        elif op == 'inv':
            r = fdiv(ONE, go(t.a[0]))
        elif op in ('ge', 'eqk', 'fge', 'fgt', 'feq', 'eq', 'bool'):
            r = go_atom(t)
        else:
            r = mk(op, *[go(x) if isinstance(x, T) else (gotup(x) if isinstance(x, tuple) else x) for x in t.a])
            if t in NN:
                NN.add(r)
            if op == 'init' and r is not t:
                r = t if False else r
        memo[t] = r
        return r

    def gotup(x):
        return tuple(go(y) if isinstance(y, T) else (gotup(y) if isinstance(y, tuple) else y) for y in x)

    def go_atom(a):
        r = memo.get(a)
        if r is not None:
            return r
        if a in m:
            return m[a]
        if a.op == 'ge':
            r = ge(go(a.a[0]), c(a.a[1]))
        elif a.op == 'eqk':
            r = eqv(go(a.a[0]), c(a.a[1]))
        elif a.op == 'fge':
            r = fle(c(a.a[1]), go(a.a[0]))
        elif a.op == 'fgt':
            r = flt(c(a.a[1]), go(a.a[0]))
        elif a.op == 'feq':
            r = feq(go(a.a[0]), c(a.a[1]))
        elif a.op == 'eq':
            r = eqv(go(a.a[0]), go(a.a[1]))
        elif a.op == 'bool':
            r = boolterm(go(a.a[0]))
        else:
            raise Exception(a.op)
        memo[a] = r
        return r
    return go(t)


_sub = {}


def subterms(t):
    """iterate over all distinct subterms (including atoms of gates)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        _push(x.a, st)


def _push(a, st):
    for y in a:
        if isinstance(y, T):
            st.append(y)
        elif isinstance(y, tuple):
            _push(y, st)


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def leaves(t):
    """list of (path condition BDD, leaf) of a gated value"""
    out = {}
    memo = {}

    def go(t, g):
        if t.op == 'ite':
            go(t.a[1], band(g, _node(t.a[0])))
            go(t.a[2], band(g, _node(t.a[0], False)))
        else:
            out[t] = bor(out.get(t, FALSE), g)
    if nodes(t) > 400:
        return [(None, x) for x in leafset(t)]
    go(t, TRUE)
    return [(g, x) for x, g in out.items()]


def leafset(t):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.a[2])
            st.append(x.a[1])
        else:
            out.append(x)
    return out


def atoms(t):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        st.append(x.a[1])
        st.append(x.a[2])
    return out


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    op, a = t.op, t.a
    if op == 'c':
        return str(a[0])
    if op == 'b':
        return 'true' if a[0] else 'false'
    if op == 'str':
        return '"%s"' % a[0]
    if op == 'poly':
        s = []
        for m, k in a:
            ms = '*'.join((show(x, d + 1) if e == 1 else '%s^%d' % (show(x, d + 1), e)) for x, e in m)
            if not ms:
                s.append(str(k))
            elif k == 1:
                s.append(ms)
            elif k == -1:
                s.append('-' + ms)
            else:
                s.append('%s*%s' % (k, ms))
        return '(' + ' + '.join(s) + ')'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return showatom(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + showatom(a[0], d)
        if a[2] is FALSE:
            return '(%s && %s)' % (showatom(a[0], d), show(a[1], d + 1))
        if a[1] is FALSE:
            return '(!%s && %s)' % (showatom(a[0], d), show(a[2], d + 1))
        return '(%s ? %s : %s)' % (showatom(a[0], d), show(a[1], d + 1), show(a[2], d + 1))
    if op in ('ge', 'eqk', 'fge', 'fgt', 'feq', 'eq', 'bool'):
        return showatom(t, d)
    if op == 'init':
        return show(a[0], d)
    if op == 'var':
        return str(a[-1])
    if op == 'sym':
        return str(a[0])
    if op == 'gv':
        return a[0].split('::')[-1]
    if op == 'field':
        return show(a[0], d + 1) + '.' + str(a[1])
    if op == 'fld':
        return show(a[0], d + 1) + '.' + str(a[1])
    if op in ('elem', 'sel'):
        return show(a[0], d + 1) + '[' + show(a[1], d + 1) + ']'
    if op == 'deref':
        return '*' + show(a[0], d + 1)
    if op == 'addr':
        return '&' + show(a[0], d + 1)
    if op == 'k':
        return 'k%s' % a[0]
    if op == 'call':
        return '%s(%s)' % (a[0].split('::')[-1], ','.join(show(x, d + 1) for x in a[1:]))
    if op == 'div':
        return '(%s / %s)' % (show(a[0], d + 1), show(a[1], d + 1))
    return '%s(%s)' % (op, ','.join(show(x, d + 1) for x in a))


def showatom(a, d=0):
    x = a.a
    if a.op == 'ge':
        return '[%s >= %s]' % (show(x[0], d + 1), x[1])
    if a.op == 'eqk':
        return '[%s == %s]' % (show(x[0], d + 1), x[1])
    if a.op == 'fge':
        return '[%s >=. %s]' % (show(x[0], d + 1), x[1])
    if a.op == 'fgt':
        return '[%s >. %s]' % (show(x[0], d + 1), x[1])
    if a.op == 'feq':
        return '[%s ==. %s]' % (show(x[0], d + 1), x[1])
    if a.op == 'eq':
        return '[%s is %s]' % (show(x[0], d + 1), show(x[1], d + 1))
    return '[%s]' % show(x[0], d + 1)
