"""Finite-model interpretation of value graphs (random interpretation, Gulwani & Necula, POPL'03).

Used only to *separate* two canonical graphs that are not identical: uninterpreted symbols get pseudo-random meanings
(a function of the symbol and of the meanings of its arguments), interpreted operators their exact meaning.  Graphs
that evaluate differently denote different functions; the program itself is never run.
"""
import re
import zlib
from fractions import Fraction
import terms as tm
from terms import T, TRUE, FALSE, show


LEAF = ('init', 'as', 'call', 'fld', 'sel', 'sym', 'upd', 'pcall', 'u', 'gv')
TAGS = ('ranged', 'hist', 'pcast', 'shuffle', 'asmout', 'unk', 'big', 'lamcall', 'cbphi', 'cbexit', 'fconst', 'str')
HEADS = ('call', 'upd', 'ctor', 'make', 'pcall', 'gv', 'numlimit', 'dyncast', 'agg0') + TAGS


class Undecided(Exception):
    pass


class Reject(Exception):
    """the sample is outside the stated domain"""


MAXTRIP = 80


class Dom:
    """value ranges for opaque scalars: list of (predicate on the token, lo, hi)"""
    def __init__(self, rules=(), default=(0, 6)):
        self.rules = list(rules)
        self.default = default


def tokname(t):
    """readable path of a token, for domain rules"""
    if isinstance(t, tuple):
        if t and t[0] == 'p':
            if t[2] == 0 and not (isinstance(t[1], tuple) and t[1] and t[1][0] == 'addr'):
                return tokname(t[1])
            return '%s[%s]' % (tokname(t[1]), tokname(t[2]))
        if t and t[0] == 'f':
            return '%s.%s' % (tokname(t[1]), t[2])
        if t and t[0] in ('init', 'sym', 'addr', 'gv') and len(t) == 2:
            return tokname(t[1])
        if t:
            return '%s(%s)' % (t[0], ','.join(tokname(x) for x in t[1:]))
        return '()'
    return str(t)


# division of negative numbers rounds towards zero instead of being left out
SIGNED = False


class Model:
    def __init__(self, seed, rules=(), default=(0, 6), fixed=None):
        self.seed = seed
        self.rules = rules
        self.default = default
        self.names = {}
        self.cache = {}
        self.fixed = fixed or {}

    def num(self, tok, hint=None):
        if isinstance(tok, bool):
            return int(tok)
        if isinstance(tok, (int, Fraction)):
            return tok
        if tok is None:
            return 0
        r = self.cache.get(tok)
        if r is None:
            nm = tokname(tok)
            lo, hi = self.default
            alt = None
            for ru in self.rules:
                if ru[0].search(nm) and (not isinstance(ru[1], (list, tuple)) or not isinstance(ru[1][0], str)):
                    if isinstance(ru[1], (list, tuple)):
                        h = zlib.crc32(('%d|%r' % (self.seed, tok)).encode())
                        r = Fraction(ru[1][zlib.crc32(b'%d' % h, h ^ 0x5bd1e995) // 7 % len(ru[1])])
                        r = self.cache[tok] = int(r) if r.denominator == 1 else r
                        return r
                    lo, hi = ru[1], ru[2]
                    alt = ru[3:] or None
                    break
            if callable(lo):
                r = lo(self, tok)
            else:
                h = zlib.crc32(('%d|%r' % (self.seed, tok)).encode())
                h = zlib.crc32(b'%d' % h, h ^ 0x5bd1e995)
                hs = None
                if hint is not None and (h >> 12) % 100 < 25:
                    a, b = (0, 5000) if lo == self.default[0] and hi == self.default[1] and alt is None else (lo, hi)
                    hs = [x for x in (hint, hint - 1, hint + 1) if a <= x <= b]
                if hs:
                    r = hs[(h >> 5) % 8 % len(hs)] if (h >> 5) % 8 > 4 else hs[0]
                else:
                    if alt and (h >> 20) % 100 < alt[2]:
                        lo, hi = alt[0], alt[1]
                    r = lo + h % (hi - lo + 1)
            self.cache[tok] = r
        return r


    strs = ()

    def strval(self, tok):
        """the text an opaque string stands for: one of the texts the compared functions mention, or another one"""
        key = ('strval', tok)
        r = self.cache.get(key)
        if r is None:
            nm = tokname(tok)
            h = zlib.crc32(('%d|%r' % (self.seed, tok)).encode())
            h = zlib.crc32(b'%d' % h, h ^ 0x5bd1e995) >> 3
            for ru in self.rules:
                if ru[0].search(nm) and isinstance(ru[1], (list, tuple)):
                    r = ru[1][h % len(ru[1])]
                    break
            else:
                pool = list(self.strs) + ['(another text)']
                r = pool[h % len(pool)]
            self.cache[key] = r
        return r


class Interp:
    def __init__(self, model, phi=None, limit=3000000, snap=None):
        self.snap = snap or {}
        self.m = model
        self.phi = phi or {}
        self.memo = {}
        self.fkc = {}
        self.steps = 0
        self.used = set()
        self.phireads = set()
        self.viac = {}
        self.limit = limit

    # free loop indices of a term
    def fk(self, t):
        r = self.fkc.get(t)
        if r is not None:
            return r
        op, a = t.op, t.a
        if op == 'k':
            r = frozenset([a[0]])
        elif op == 'phi':
            r = self.fkphi(t)
        else:
            s = set()
            for x in self.kids(a):
                s |= self.fk(x)
            d = None
            if op in ('sum', 'trip'):
                d = a[0].a[0]
            elif op == 'red':
                d = a[1].a[0]
            elif op in ('carry', 'exists', 'first'):
                d = a[0]
            if d is not None:
                s.discard(d)
            r = frozenset(s)
        self.fkc[t] = r
        return r

    def fkphi(self, t):
        self.fkc[t] = frozenset(range(1, t.a[0] + 1))
        return self.fkc[t]

    def kids(self, a):
        for x in a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                yield from self.kids(x)

    def num(self, t, env):
        return self.m.num(self.ev(t, env))

    def boolv(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        return self.m.num(v) != 0

    def ev(self, t, env):
        op = t.op
        if op == 'c':
            return t.a[0]
        if op == 'b':
            return t.a[0]
        f = self.fk(t)
        key = (t.id,) + tuple((d, env.get(d)) for d in sorted(f)) if f else t.id
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > self.limit:
                raise Undecided('budget')
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.a
        if op in HEADS and a:
            h = a[1] if op == 'upd' else a[0]
            self.used.add((op if op != 'agg0' else 'agg', h if isinstance(h, (str, int)) else 'ptr' if op not in TAGS else ''))
        m = getattr(self, 'o_' + op, None)
        if m:
            return m(a, env, t)
        if op in ('unk', 'big', 'shuffle', 'cbphi', 'cbexit', 'lamcall', 'rec', 'asmout', 'cbtrip', 'pdiff'):
            raise Undecided(op)
        return (op,) + tuple(self.evx(x, env) for x in a)

    def evx(self, x, env):
        if isinstance(x, T):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.evx(y, env) for y in x)
        return x

    def o_call(self, a, env, t):
        r = ('call',) + tuple(self.evx(x, env) for x in a)
        if a[0] == 'TfLiteIntArrayCreate':
            # an array is known by its length, however that was written
            r = r[:2] + tuple(self.m.num(x) for x in r[2:])
        return r

    # ---- numbers
    def o_poly(self, a, env, t):
        s = 0
        for m, k in a:
            v = k
            for x, e in m:
                y = self.num(x, env)
                if e < 0:
                    if y == 0:
                        raise Reject('division by zero')
                    y = Fraction(1) / Fraction(y)
                    e = -e
                v = v * y ** e
            s += v
        if isinstance(s, Fraction) and s.denominator == 1:
            s = int(s)
        return s

    def o_u(self, a, env, t):
        v = self.num(a[0], env)
        if SIGNED and v < 0:
            raise Reject('negative unsigned')
        return v

    def o_relu(self, a, env, t):
        return max(0, self.num(a[0], env))

    def o_div(self, a, env, t):
        x, y = self.num(a[0], env), self.num(a[1], env)
        if y == 0:
            raise Reject('division by zero')
        if x < 0 or y < 0:
            if not SIGNED:
                raise Reject('negative division')
            q = abs(x) // abs(y)
            return int(q if (x < 0) == (y < 0) else -q)
        return int(x // y)

    def o_inv(self, a, env, t):
        y = self.num(a[0], env)
        if y == 0:
            raise Reject('division by zero')
        return Fraction(1) / Fraction(y)

    def o_bigmul(self, a, env, t):
        return self.num(a[0], env) * self.num(a[1], env)

    def o_narrow(self, a, env, t):
        v = self.num(a[1], env)
        bits = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'unsigned long': 64, 'unsigned long long': 64}.get(a[0], 32)
        if isinstance(v, Fraction):
            raise Undecided('narrow real')
        v %= 1 << bits
        if not a[0].startswith('unsigned') and v >= 1 << (bits - 1):
            v -= 1 << bits
        return v

    def o_ftoi(self, a, env, t):
        v = self.num(a[0], env)
        return int(v)

    def _floor(self, v):
        return v.numerator // v.denominator if isinstance(v, Fraction) else v

    def o_floor(self, a, env, t):
        return self._floor(self.num(a[0], env))

    def o_ceil(self, a, env, t):
        return -self._floor(-self.num(a[0], env))

    def o_trunc(self, a, env, t):
        return int(self.num(a[0], env))

    def o_round(self, a, env, t):
        v = self.num(a[0], env)
        h = Fraction(1, 2)
        return self._floor(v + h) if v >= 0 else -self._floor(-v + h)
    o_lround = o_round

    def o_rint(self, a, env, t):
        return round(Fraction(self.num(a[0], env)))
    o_nearbyint = o_lrint = o_rint

    def _int(self, x, env):
        v = self.num(x, env)
        if isinstance(v, Fraction):
            raise Undecided('bit operation on a real')
        return v

    def o_popcount(self, a, env, t):
        return bin(self._int(a[0], env) & 0xffffffff).count('1')

    def o_packbits(self, a, env, t):
        v = sum(1 << i for i, x in enumerate(a) if self.boolv(x, env))
        n = len(a)
        return v - (1 << n) if v >> (n - 1) else v

    def o_band(self, a, env, t):
        r = -1
        for x in a:
            r &= self._int(x, env)
        return r

    def o_bor(self, a, env, t):
        r = 0
        for x in a:
            r |= self._int(x, env)
        return r

    def o_bxor(self, a, env, t):
        r = 0
        for x in a:
            r ^= self._int(x, env)
        return r

    def o_bnotw(self, a, env, t):
        return ~self._int(a[0], env)

    def o_shl(self, a, env, t):
        y = self._int(a[1], env)
        if y < 0 or y > 200:
            raise Reject('shift')
        return self._int(a[0], env) << y

    def o_shr(self, a, env, t):
        y = self._int(a[1], env)
        if y < 0 or y > 200:
            raise Reject('shift')
        return self._int(a[0], env) >> y

    # ---- gates
    def hint(self, t, k, env):
        """directed sampling: a comparison of a so far undetermined symbol with a known value proposes that value"""
        if t.op == 'poly':
            last, rest = None, 0
            for m, c in t.a:
                if last is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op in LEAF:
                    v = self.ev(m[0][0], env)
                    if isinstance(v, tuple) and v not in self.m.cache:
                        last = (v, c)
                        continue
                y = c
                for x, e in m:
                    if e < 0:
                        return
                    y = y * self.num(x, env) ** e
                rest += y
            if last is None:
                return
            v, c = last
            q = Fraction(k - rest) / Fraction(c)
            q = int(q) if q.denominator == 1 else q.numerator // q.denominator
        elif t.op in LEAF:
            v = self.ev(t, env)
            if not isinstance(v, tuple) or v in self.m.cache:
                return
            q = int(k)
        else:
            return
        self.m.num(v, q)

    def atom(self, at, env):
        op, a = at.op, at.a
        if op in ('ge', 'eqk', 'fge', 'fgt', 'feq'):
            self.hint(a[0], a[1], env)
        if op in ('ge', 'fge'):
            return self.num(a[0], env) >= a[1]
        if op == 'fgt':
            return self.num(a[0], env) > a[1]
        if op in ('eqk', 'feq'):
            return self.num(a[0], env) == a[1]
        if op == 'eq':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            for p, q in ((x, y), (y, x)):
                # an opaque pointer is null only in models that say so
                if p == ('null',) and isinstance(q, tuple) and q and q[0] in LEAF + ('out',):
                    t = ('isnull', q)
                    nm = tokname(t)
                    return any(r[0].search(nm) for r in self.m.rules if r[0].pattern.lstrip('^').startswith('isnull')) and bool(self.m.num(t))
                if isinstance(p, tuple) and len(p) == 2 and p[0] == 'str' and isinstance(q, tuple) and q and q[0] not in ('str', 'null'):
                    return self.m.strval(q) == p[1]
            return x == y
        if op == 'bool':
            v = self.ev(a[0], env)
            if isinstance(v, bool):
                return v
            return bool(self.m.num(('bool', v)) & 1)
        raise Undecided('atom ' + op)

    def o_ite(self, a, env, t):
        while True:
            nx = a[1] if self.atom(a[0], env) else a[2]
            if nx.op != 'ite':
                return self.ev(nx, env)
            a = nx.a

    def o_itex(self, a, env, t):
        return self.ev(a[1] if self.boolv(a[0], env) else a[2], env)

    # ---- loops
    def trip(self, t, env, d):
        if t.op == 'trip':
            kd = t.a[0].a[0]
            e = dict(env)
            for i in range(MAXTRIP + 1):
                e[kd] = i
                if not self.boolv(t.a[1], e):
                    return i
            raise Reject('trip')
        n = self.num(t, env)
        if n > MAXTRIP:
            raise Reject('trip')
        return max(0, int(n))

    def o_trip(self, a, env, t):
        return self.trip(t, env, None)

    def o_k(self, a, env, t):
        if a[0] not in env:
            raise Undecided('free loop index')
        return env[a[0]]

    def o_sum(self, a, env, t):
        d = a[0].a[0]
        n = self.trip(a[1], env, d)
        e = dict(env)
        s = 0
        for i in range(n):
            e[d] = i
            s += self.num(a[2], e)
        return s

    def o_red(self, a, env, t):
        nm, kk, tr, init, g = a
        d = kk.a[0]
        n = self.trip(tr, env, d)
        v = None if init.op == 'ident' else self.num(init, env)
        e = dict(env)
        for i in range(n):
            e[d] = i
            x = self.ev(g, e)
            if x == ('ident',):
                continue
            x = self.m.num(x)
            if v is None:
                v = x
            elif nm == 'max':
                v = max(v, x)
            elif nm == 'min':
                v = min(v, x)
            else:
                if isinstance(v, Fraction) or isinstance(x, Fraction):
                    raise Undecided('bits')
                v = v & x if nm == 'band' else v | x if nm == 'bor' else v ^ x
        return ('ident',) if v is None else v

    def o_exists(self, a, env, t):
        d = a[0]
        n = self.trip(a[1], env, d)
        e = dict(env)
        for i in range(n):
            e[d] = i
            if self.boolv(a[2], e):
                return True
        return False

    def o_nonempty(self, a, env, t):
        return self.trip(a[0], env, None) > 0

    def o_first(self, a, env, t):
        d, tr, g, v = a
        n = self.trip(tr, env, d)
        e = dict(env)
        for i in range(n):
            e[d] = i
            if self.boolv(g, e):
                return self.ev(v, e)
        return 0

    def o_phi(self, a, env, t):
        rec = self.phi.get(t)
        if rec is None:
            raise Undecided('phi')
        d, init, nxt = rec
        if d not in env:
            raise Undecided('phi outside its loop')
        i = env[d]
        if i == 0:
            return self.ev(init, env)
        e = dict(env)
        # fill in order so recursion stays shallow
        for j in range(i):
            e[d] = j
            v = self.ev(nxt, e)
        return v

    def o_carry(self, a, env, t):
        d, i, tr, init, n, start = a[:6]
        bx = a[6:]
        e = dict(env)
        trip = None
        try:
            trip = self.trip(tr, env, d)
        except (Reject,):
            if not bx:
                raise
        k = 0
        while True:
            e[d] = k
            if trip is not None and k >= trip:
                return self.ev(init, env) if k == 0 else self.ev(start, e)
            for j in range(0, len(bx), 2):
                if self.boolv(bx[j], e):
                    return self.ev(bx[j + 1], e)
            k += 1
            if k > MAXTRIP:
                raise Reject('trip')

    # ---- memory
    def o_deref(self, a, env, t):
        p = self.ev(a[0], env)
        return self.loc(p)

    def loc(self, p):
        if isinstance(p, tuple) and p and p[0] == 'addr':
            return p[1]
        return ('p', p, 0)

    SET = re.compile(r'std::(unordered_)?set<')

    def setrange(self, p, q):
        """elements of [p, q) of an array nothing here writes, or None"""
        def split(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'addr' and isinstance(x[1], tuple):
                return (x[1][1], x[1][2]) if x[1][0] == 'p' else (x, 0)
            return None
        p, q = split(p), split(q)
        if not p or not q or p[0] != q[0] or not isinstance(q[1], int) or not isinstance(p[1], int) or q[1] - p[1] > 4000 or "'lv'" in repr(p[0]):
            return None
        return [('init', ('p', p[0], i)) for i in range(p[1], q[1])]

    def mkset(self, xs):
        return ('set', tuple(sorted(set(xs), key=repr)))

    def o_ctor(self, a, env, t):
        v = ('ctor',) + tuple(self.evx(x, env) for x in a)
        if isinstance(v[1], str) and self.SET.match(v[1]):
            if len(v) == 2:
                return self.mkset(())
            if len(v) >= 4:
                xs = self.setrange(v[2], v[3])
                if xs is not None:
                    return self.mkset(xs)
        return v

    def o_upd(self, a, env, t):
        v = ('upd',) + tuple(self.evx(x, env) for x in a)
        q = str(v[2]).split('<')[0] if not str(v[2]).startswith('std::') else re.sub(r'<.*', '', str(v[2]).split('>::')[-1])
        if isinstance(v[1], tuple) and v[1][:1] == ('set',) and q in ('insert', 'emplace'):
            if len(v) == 4:
                return self.mkset(v[1][1] + (v[3],))
            xs = self.setrange(v[3], v[4]) if len(v) == 5 else None
            if xs is not None:
                return self.mkset(v[1][1] + tuple(xs))
        if re.search(r'Flags::set_\w+$', q) and len(v) == 4:
            b = v[1] if isinstance(v[1], tuple) and v[1][:1] == ('flags',) else ('flags', v[1], ())
            if isinstance(b[1], tuple) and (b[1][:1] in (('agg0',), ('undef',)) or b[1][:1] == ('obj',) and len(b[1]) == 3 and not b[1][2]):
                b = ('flags', 'fresh', b[2])
            return ('flags', b[1], tuple(sorted([x for x in b[2] if x[0] != q] + [(q, v[3])], key=repr)))
        return v

    def o_elem(self, a, env, t):
        l = self.ev(a[0], env)
        i = self._int(a[1], env)
        if a[0].op in ('deref', 'ite') and isinstance(l, tuple) and l[0] == 'p':
            return ('p', l[1], l[2] + i)
        return ('p', ('addr', l), i)

    def o_addr(self, a, env, t):
        l = self.ev(a[0], env)
        self.mark(l)
        if isinstance(l, tuple) and l[0] == 'p' and l[2] == 0:
            return l[1]
        return ('addr', l)

    def o_pcast(self, a, env, t):
        """pointers to 16-bit halves of 32-bit words"""
        v = self.ev(a[1], env)
        if (a[0], a[2]) == (16, 32):
            if isinstance(v, tuple) and v and v[0] == 'odd':
                b, i = v[1], v[2]
            else:
                b, i = self.split(v)
                i *= 2
            b = ('half', b)
            return ('addr', ('p', b, i)) if i else b
        if (a[0], a[2]) == (32, 16):
            b, i = self.split(v)
            if isinstance(b, tuple) and b and b[0] == 'half':
                if i % 2:
                    return ('odd', b[1], i)
                return ('addr', ('p', b[1], i // 2)) if i else b[1]
        if a[0] in (8, 32) and a[2] in (8, 32):
            # bytes of words, kept as a byte offset into the words
            by = lambda v: (v[1], v[2]) if isinstance(v, tuple) and v and v[0] == 'byte' else None
            b, i = self.split(v)
            if a[2] == 32:
                q = ('byte', b, 0)
                i *= 4
            else:
                q = by(b)
            if q is not None:
                b, i = q[1], i
                if a[0] == 8:
                    q = ('byte', b, 0)
                    return ('addr', ('p', q, i)) if i else q
                return (('addr', ('p', b, i // 4)) if i else b) if i % 4 == 0 else ('odd', b, i)
        raise Undecided('pointer cast')

    def split(self, v):
        if isinstance(v, tuple) and v and v[0] == 'addr':
            l = v[1]
            if isinstance(l, tuple) and l and l[0] == 'p':
                return l[1], l[2]
        return v, 0

    def o_field(self, a, env, t):
        return ('f', self.ev(a[0], env), a[1])

    def o_var(self, a, env, t):
        if t not in self.snap:
            ty = self.snap.get(('type', t))
            if ty and re.match(r'(const )?(mlir|tensorflow|tflite|llvm|absl)::', ty) and not ty.rstrip().endswith(('*', '&')):
                return ('local object', ty.split('::')[-1])      # an object of a library class, told apart by its type
            raise Undecided('local address')
        return ('lv', t)

    def local(self, l, env):
        b, i = l[1], l[2]
        if isinstance(b, tuple) and b[0] == 'addr' and isinstance(b[1], tuple) and b[1][0] == 'lv':
            v = self.snap[b[1][1]]
            if v.op == 'undef' or any(d not in env for d in self.fk(v)):
                raise Undecided('local array through a loop-carried pointer')
            return self.select(self.ev(v, env), i)
        raise Undecided('local address')

    def mark(self, l):
        while isinstance(l, tuple) and len(l) > 1:
            if l[0] == 'f':
                self.used.add(('field', l[2]))
            l = l[1]

    def o_indet(self, a, env, t):
        """a bit that nothing has set"""
        import zlib
        return zlib.crc32(('%d|%s' % (self.m.seed, show(t))).encode()) >> 9 & 1

    def o_init(self, a, env, t):
        l = self.ev(a[0], env)
        self.mark(l)
        if self.snap and isinstance(l, tuple) and l[0] == 'p' and "'lv'" in repr(l[1])[:40]:
            return self.local(l, env)
        if self.viaphi(a[0]):
            self.phireads.add(l)
        return ('init', l)

    def viaphi(self, t):
        r = self.viac.get(t)
        if r is None:
            r = self.viac[t] = tm.contains(t, lambda x: x.op in ('phi', 'carry'))
        return r

    def o_fld(self, a, env, t):
        self.used.add(('field', a[1]))
        v = self.ev(a[0], env)
        while isinstance(v, tuple) and v and v[0] == 'obj':
            for n, x in v[2]:
                if n == a[1]:
                    return x
            v = v[1]
        if isinstance(v, tuple) and v and v[0] == 'init':
            l = ('f', v[1], a[1])
            self.mark(l)
            return ('init', l)
        return ('fld', v, a[1])

    def o_obj(self, a, env, t):
        return self.vector((t.op,) + tuple(self.evx(x, env) for x in a))

    o_agg = o_obj

    bounds = False

    def vector(self, v):
        """containers are compared by their size and elements"""
        d, b = {}, v
        while isinstance(b, tuple) and b and b[0] in ('obj', 'agg') and len(b) == 3:
            for n, x in b[2]:
                d.setdefault(n, x)
            b = b[1]
        n = d.get('#n')
        if '#d' not in d and isinstance(b, tuple):
            d['#d'] = ('fld', b, '#d')
        if n is None and set(d) == {'#d'} and isinstance(b, tuple) and b and b[0] in ('call', 'sel', 'fld', 'init', 'sym'):
            n = d['#n'] = ('fld', b, '#n')
        if n is None or set(d) != {'#n', '#d'}:
            return v
        n = self.m.num(n)
        if type(n) is not int or n < 0 or n > 300:
            return v
        if self.bounds and isinstance(d['#d'], tuple) and d['#d'][:2] == ('A', 'zarr') and any(type(i) is int and not 0 <= i < n for i, _ in d['#d'][2]):
            raise Reject('bounds')
        try:
            return ('obj', 'vec', (('#d', ('A', 'zarr', tuple((i, self.select(d['#d'], i)) for i in range(n)))), ('#n', n)))
        except Undecided:
            return v

    # arrays: ('A', base, ((i, v)...)) where base is a token / 'zarr' / ('fill', x)
    def o_zarr(self, a, env, t):
        return ('A', 'zarr', ())

    def o_fill(self, a, env, t):
        return ('A', ('fill', self.ev(a[0], env)), ())

    def o_arr(self, a, env, t):
        return ('A', 'none', tuple((i, self.ev(x, env)) for i, x in enumerate(a)))

    def o_stm(self, a, env, t):
        v = self.ev(a[0], env)
        i = self._int(a[1], env)
        x = self.ev(a[2], env)
        if not (isinstance(v, tuple) and v and v[0] == 'A'):
            v = ('A', v, ())
        d = dict(v[2])
        d[i] = x
        return ('A', v[1], tuple(sorted(d.items())))

    def o_sel(self, a, env, t):
        v = self.ev(a[0], env)
        i = self._int(a[1], env)
        return self.select(v, i)

    def select(self, v, i):
        if isinstance(v, tuple) and v and v[0] == 'A':
            for j, x in v[2]:
                if j == i:
                    return x
            b = v[1]
            if b == 'zarr':
                return 0
            if b == 'none':
                raise Reject('out of bounds')
            if isinstance(b, tuple) and b and b[0] == 'fill':
                return b[1]
            return self.select(b, i)
        if isinstance(v, tuple) and v and v[0] == 'init':
            l = v[1]
            if isinstance(l, tuple) and l[0] == 'p' and l[2] == 0:
                return ('init', ('p', l[1], i))
            return ('init', ('p', ('addr', l), i))
        return ('sel', v, i)

    # ---- events
    def run(self, events, sink, depth=0, env=None):
        """enumerate guarded events in program order"""
        env = env or {}
        i = 0
        while i < len(events):
            e = events[i]
            if len(e.loops) <= depth:
                if self.boolv(e.guard, env):
                    sink(e, env)
                i += 1
                continue
            L = e.loops[depth]
            j = i
            while j < len(events) and len(events[j].loops) > depth and events[j].loops[depth] is L:
                j += 1
            self.loop(L, events[i:j], sink, depth, env)
            i = j

    def loop(self, L, evs, sink, depth, env):
        e = dict(env)
        d = L.depth
        sym = L.cond is TRUE and not L.brkg
        n = None
        if sym:
            if L.trip is not None and L.trip.op == 'cbtrip':
                raise Undecided('callback loop')
            n = self.trip(L.trip, env, d)
        k = 0
        while True:
            e[d] = k
            if n is not None and k >= n:
                return
            if n is None and not L.isdo and not self.boolv(L.cond, e):
                return
            self.run(evs, sink, depth + 1, e)
            for g in L.brkg:
                if self.boolv(g, e):
                    return
            if n is None and L.isdo and not self.boolv(L.cond, e):
                return
            k += 1
            if k > MAXTRIP:
                raise Reject('trip')


setattr(Interp, 'o_ite?', Interp.o_itex)
