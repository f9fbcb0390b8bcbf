"""The AArch64 packing path: where each bit stored by the assembly comes from (a dataflow analysis of bit provenance over the block's control-flow graph, relative to the number of blocks stored so far), and the portable code that calls it.
A register is 128 bits, each of them a bit of an input byte, the sign of input byte minus zero point, a constant or unknown; pointers and the counter are offsets from the block being packed; the number of remaining blocks is an interval refined by the branches."""
from common import *
import asm, c01, c13
from fe import VERIF
FLOOR = 6
ASSUMPTIONS = c01.ASSUMPTIONS + ['the instruction semantics used are those of the architecture manual', 'the sign bit of a float says whether it is below zero (a negative zero packs as below zero on this path)']
CODE = '''#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/bitpacking/bitpack.h"
namespace spec { using compute_engine::core::TBitpacked; using namespace compute_engine::core::bitpacking;
void f(const float* a, std::size_t n, TBitpacked* o) { bitpack_aarch64_4x32<float>(a, n, o, 0.0f); }
void i(const std::int8_t* a, std::size_t n, TBitpacked* o, std::int8_t z) { bitpack_aarch64_4x32<std::int8_t>(a, n, o, z); }
}
'''
INF = 1 << 40
KEEP = 4          # distinct states kept per program point before they are merged
W = {'b': 1, 'h': 2, 's': 4, 'd': 8}
U8 = (None,) * 8
UNK = (U8,) * 16


class Bad(Exception):
    pass


class Give(Exception):
    pass


def width(o):
    m = re.search(r'\.(\d*)([bhsd])', o)
    if not m:
        raise Give('arrangement of ' + o)
    if m.group(1) and int(m.group(1)) * W[m.group(2)] != 16:
        raise Give('half-width ' + o)
    return W[m.group(2)]


def lanes(v, w):
    """bits of each lane, lowest first"""
    return [sum((list(b) for b in v[i:i + w]), []) for i in range(0, 16, w)]


def pack(ls):
    bits = [b for l in ls for b in l]
    return tuple(tuple(bits[i:i + 8]) for i in range(0, 128, 8))


class State:
    __slots__ = ('v', 'r', 'lo', 'hi', 'flags', 'front', 'exact')

    def __init__(s, v, r, lo, hi, flags, front, exact=True):
        s.v, s.r, s.lo, s.hi, s.flags, s.front = v, r, lo, hi, flags, front
        s.exact = exact      # every number of remaining blocks in the interval occurs for some input size

    def copy(s):
        return State(dict(s.v), dict(s.r), s.lo, s.hi, s.flags, s.front, s.exact)

    def key(s):
        return (tuple(sorted(s.v.items(), key=repr)), tuple(sorted(s.r.items(), key=repr)), s.lo, s.hi, s.flags, s.front)


def bit_join(a, b):
    return a if a == b else None


def join(a, b):
    v = {k: tuple(tuple(bit_join(x, y) for x, y in zip(p, q)) for p, q in zip(a.v[k], b.v[k])) for k in a.v if k in b.v}
    r = {k: a.r[k] for k in a.r if k in b.r and a.r[k] == b.r[k]}
    return State(v, r, min(a.lo, b.lo), max(a.hi, b.hi), a.flags if a.flags == b.flags else None, a.front if a.front == b.front else None, a.exact and b.exact and max(a.lo, b.lo) <= min(a.hi, b.hi) + 1)


class Pack:
    """abstract interpretation of one block; per = bytes of input per 128 packed elements"""
    def __init__(s, blk, per, elem, out, inp, cnt, zero):
        s.a, s.per, s.elem = blk, per, elem
        s.out, s.inp, s.cnt, s.zero = ('op', out), ('op', inp), ('op', cnt), ('op', zero) if zero else None
        s.stores = s.loads = 0

    def shift(s, st):
        """one more block (16 bytes of output) has been stored: everything is relative to the next one"""
        mv = lambda b: (b[0], b[1] - s.per) + b[2:] if isinstance(b, tuple) and b[0] != 'z' else b
        st.v = {k: tuple(tuple(mv(b) for b in byte) for byte in v) for k, v in st.v.items()}
        r = {}
        for k, x in st.r.items():
            r[k] = ('in', x[1] - s.per) if x[0] == 'in' else ('out', x[1] - 16) if x[0] == 'out' else ('n', x[1] + 1) if x[0] == 'n' else x
        st.r = r
        st.lo, st.hi = max(st.lo - 1, 0) if st.lo < INF else INF, st.hi - 1 if st.hi < INF else INF
        if st.flags:
            st.flags = st.flags - 1
        st.front -= 16

    def num(s, st, o):
        o = o.strip()
        if o.startswith('#'):
            return int(o[1:], 0)
        return None

    def vec(s, st, o):
        return st.v.get(s.i.reg(re.sub(r'\..*', '', o) if not o.startswith('%') else o), UNK)

    def step(s, i, st):
        """state after instruction i"""
        c = s.i = s.a.code[i]
        st = st.copy()
        k, b, o = c.kind, getattr(c, 'base', ''), c.ops
        if k in ('none', 'branch', 'cbranch'):
            return st
        if k == 'flagonly':
            x, n = st.r.get(c.reg(o[0])), s.num(st, o[1])
            st.flags = n - x[1] if b == 'cmp' and x and x[0] == 'n' and n is not None else None
            return st
        if c.mem:
            kind, base, off, post = c.mem[0]
            p = st.r.get(base)
            d = s.num(st, off)
            if p is None or d is None or post == '!':
                if kind == 'store':
                    raise Give('address of `%s`' % c.text)
                for r in c.writes:
                    s.forget(st, r)
                return st
            regs = [r for x in ([o[0]] if c.kind != 'two' and b != 'stp' else o[:2]) for r in c.regs(x)]
            at = p[1] + d
            if kind == 'load':
                s.load(st, c, b, regs, p, at, o)
            else:
                s.store(st, c, b, regs, p, at, o)
            if post:
                n = s.num(st, post)
                if n is None:
                    st.r.pop(base, None)
                else:
                    q = st.r[base]
                    st.r[base] = (q[0], q[1] + n)
            while st.front is not None and st.front >= 16:
                s.shift(st)
            return st
        dst = c.writes
        if b in ('add', 'sub', 'subs', 'adds') and len(o) == 3 and not re.search(r'\.\d', o[0]):
            x, n = st.r.get(c.reg(o[1])), s.num(st, o[2])
            for r in dst:
                s.forget(st, r)
            if x and n is not None:
                st.r[dst[0]] = (x[0], x[1] + (n if b.startswith('add') else -n))
            if c.wflags:
                st.flags = -st.r[dst[0]][1] if dst[0] in st.r and st.r[dst[0]][0] == 'n' else None
            return st
        if b == 'mov' and not re.search(r'\.\d', o[0]):
            x = st.r.get(c.reg(o[1])) if c.reg(o[1]) else None
            for r in dst:
                s.forget(st, r)
            if x:
                st.r[dst[0]] = x
            return st
        if c.merge:
            for r in c.merge:
                s.forget(st, r)
            return st
        try:
            v = s.compute(st, c, b, o)
        except Give:
            v = None
        for r in dst:
            s.forget(st, r)
        if c.wflags:
            st.flags = None
        if v is not None:
            st.v[dst[0]] = v
        return st

    def forget(s, st, r):
        st.v.pop(r, None)
        st.r.pop(r, None)

    def byte(s, p, at):
        return tuple(('m', at, j) for j in range(8)) if p[0] == 'in' else U8

    def load(s, st, c, b, regs, p, at, o):
        if p[0] != 'in':
            for r in regs:
                s.forget(st, r)
            return
        m = re.match(r'ld(\d)$', b)
        if m and not c.merge:
            n, w = int(m.group(1)), width(asm.split(o[0][1:-1])[0])
            total = 16 * len(regs)
        elif b in ('ldr', 'ldp') and re.match(r'q\d|%q', o[0]):
            n, w, total = 1, 16, 16 * len(regs)
        else:
            raise Give('load `%s`' % c.text)
        s.loads += 1
        if at < 0:
            raise Bad('`%s` reads before the input' % c.text)
        if st.lo < INF and at + total > st.lo * s.per:
            raise Bad('`%s` reads input bytes %d to %d of the current block although only %d blocks are known to remain' % (c.text, at, at + total - 1, st.lo))
        for j, r in enumerate(regs):
            if n > 1:
                idx = [(e * n + j) * w + x for e in range(16 // w) for x in range(w)]
            else:
                idx = [16 * j + x for x in range(16)]
            s.forget(st, r)
            st.v[r] = tuple(s.byte(p, at + x) for x in idx)

    def store(s, st, c, b, regs, p, at, o):
        if p[0] != 'out':
            raise Bad('`%s` stores through a pointer that is not the output' % c.text)
        m = re.match(r'st(\d)$', b)
        if m:
            n, w = int(m.group(1)), width(asm.split(o[0][1:-1])[0])
            if n > 1:
                raise Give('interleaving store')
        elif not (b in ('str', 'stp') and re.match(r'q\d|%q', o[0])):
            raise Give('store `%s`' % c.text)
        if st.front is None or at != st.front:
            raise Bad('`%s` stores at output byte %s of the block where byte %s is next' % (c.text, at, st.front)) if st.front is not None else Give('store position')
        if st.lo < 1:
            raise Bad('`%s` stores although no block is known to remain' % c.text)
        s.stores += 1
        for j, r in enumerate(regs):
            v = st.v.get(r, UNK)
            for x, byte in enumerate(v):
                for y, bit in enumerate(byte):
                    e = (at + 16 * j + x) * 8 + y
                    want = ('m', e * 4 + 3, 7) if s.elem == 'float' else ('s', e)
                    if bit is None:
                        raise Give('bit %d of the packed block is not tracked' % e)
                    if bit != want:
                        raise Bad('bit %d of word %d that `%s` stores is %s instead of the sign of element %d' % (e % 32, e // 32, c.text, s.show(bit), e))
            st.front += 16

    def show(s, b):
        if not isinstance(b, tuple):
            return 'the constant %s' % b
        if b[0] == 'm':
            return 'bit %d of input byte %d' % (b[2], b[1])
        if b[0] == 's':
            return 'the sign of element %d' % b[1]
        return 'the top bit of %s of element %d' % (b[0], b[1])

    def compute(s, st, c, b, o):
        a = lambda j: s.vec(st, o[j])
        if b == 'dup':
            if s.zero and c.reg(o[1]) == s.zero and width(o[0]) == 1:
                return tuple(tuple(('z', 0, j) for j in range(8)) for _ in range(16))
            return None
        if b in ('movi',):
            n = s.num(st, o[1])
            w = width(o[0])
            if n is None or len(o) > 2:
                return None
            return pack([[(n >> j) & 1 for j in range(8 * w)] for _ in range(16 // w)])
        if b == 'mov':
            return a(1)
        if b in ('uzp1', 'uzp2', 'zip1', 'zip2', 'trn1', 'trn2'):
            w = width(o[0])
            x, y = lanes(a(1), w), lanes(a(2), w)
            n, h = len(x), b[-1] == '2'
            if b[:3] == 'uzp':
                r = (x + y)[int(h)::2]
            elif b[:3] == 'zip':
                x, y = (x[n // 2:], y[n // 2:]) if h else (x[:n // 2], y[:n // 2])
                r = [l for p in zip(x, y) for l in p]
            else:
                r = [l for p in zip(x[int(h)::2], y[int(h)::2]) for l in p]
            return pack(r)
        if b == 'ext':
            n = s.num(st, o[3])
            return tuple((list(a(1)) + list(a(2)))[n:n + 16])
        if b in ('rev64', 'rev32', 'rev16'):
            w, g = width(o[0]), int(b[3:]) // 8
            l = lanes(a(1), w)
            k = g // w
            return pack([x for i in range(0, len(l), k) for x in l[i:i + k][::-1]])
        if b in ('sri', 'sli', 'shl', 'ushr', 'sshr'):
            w, n = width(o[0]), s.num(st, o[2])
            x, d = lanes(a(1), w), lanes(a(0), w)
            B = 8 * w
            f = {'sri': lambda l, q: l[n:] + q[B - n:], 'sli': lambda l, q: q[:n] + l[:B - n], 'shl': lambda l, q: [0] * n + l[:B - n], 'ushr': lambda l, q: l[n:] + [0] * n, 'sshr': lambda l, q: l[n:] + [l[-1]] * n}[b]
            return pack([f(l, q) for l, q in zip(x, d)])
        if b in ('and', 'orr', 'eor', 'bic'):
            def g(p, q):
                if b == 'bic':
                    q = 1 - q if q in (0, 1) else None if q is None else ('not',)
                if b in ('and', 'bic'):
                    return 0 if 0 in (p, q) else q if p == 1 else p if q == 1 or p == q else None
                if b == 'orr':
                    return 1 if 1 in (p, q) else q if p == 0 else p if q == 0 or p == q else None
                return q if p == 0 else p if q == 0 else 0 if p == q and p is not None else None
            return tuple(tuple(g(p, q) if q != ('not',) else None for p, q in zip(x, y)) for x, y in zip(a(1), a(2)))
        if b in ('sqsub', 'sub', 'uqsub') and len(o) == 3 and width(o[0]) == 1:
            return tuple(s.minus(b, x, y) for x, y in zip(a(1), a(2)))
        if b in ('cmgt', 'cmhi', 'cmge') and width(o[0]) == 1 and not o[2].startswith('#'):
            out = []
            for x, y in zip(a(1), a(2)):
                e, z = s.elem_of(y), s.is_zero(x)
                l = ('s', e) if b == 'cmgt' and e is not None and z else (b, e) if e is not None and z else None
                out.append((l,) * 8)
            return tuple(out)
        if b == 'cmlt' and s.num(st, o[2]) == 0:
            w = width(o[0])
            return pack([[l[-1]] * (8 * w) for l in lanes(a(1), w)])
        return None

    def elem_of(s, byte):
        """the input byte a whole byte is"""
        if all(isinstance(b, tuple) and b[0] == 'm' and b[2] == j and b[1] == byte[0][1] for j, b in enumerate(byte)):
            return byte[0][1]
        return None

    def is_zero(s, byte):
        return all(isinstance(b, tuple) and b[0] == 'z' and b[2] == j for j, b in enumerate(byte))

    def minus(s, b, x, y):
        e = s.elem_of(x)
        if e is not None and s.is_zero(y):
            return (None,) * 7 + (('s', e) if b == 'sqsub' else ('a wrapping difference' if b == 'sub' else 'an unsigned difference', e),)
        f = s.elem_of(y)
        if f is not None and s.is_zero(x):
            return (None,) * 7 + (('the reversed difference', f),)
        return U8

    def refine(s, st, cond, taken):
        """remaining blocks after a conditional branch on a comparison of the counter"""
        if st.flags is None:
            return st
        t = st.flags
        c = cond if taken else {'eq': 'ne', 'ne': 'eq', 'ge': 'lt', 'lt': 'ge', 'gt': 'le', 'le': 'gt', 'hs': 'lo', 'lo': 'hs', 'cs': 'cc', 'cc': 'cs', 'hi': 'ls', 'ls': 'hi', 'mi': 'pl', 'pl': 'mi'}.get(cond)
        st = st.copy()
        if c == 'eq':
            st.lo, st.hi = max(st.lo, t), min(st.hi, t)
        elif c in ('ge', 'hs', 'cs', 'pl'):
            st.lo = max(st.lo, t)
        elif c in ('gt', 'hi'):
            st.lo = max(st.lo, t + 1)
        elif c in ('lt', 'lo', 'cc', 'mi'):
            st.hi = min(st.hi, t - 1)
        elif c in ('le', 'ls'):
            st.hi = min(st.hi, t)
        elif c == 'ne':
            if st.lo == t:
                st.lo = t + 1
            if st.hi == t:
                st.hi = t - 1
            if st.lo < t < st.hi:
                st.exact = False
        return st if st.lo <= st.hi else None

    def run(s):
        a = s.a
        init = State({}, {s.inp: ('in', 0), s.out: ('out', 0), s.cnt: ('n', 0)}, 1, INF, None, 0)
        st, todo, n, gave = {0: [init]}, [(0, init)], 0, None
        while todo:
            i, cur = todo.pop()
            n += 1
            if n > 20000:
                raise gave or Give('no fixed point')
            if i >= len(a.code):
                if cur.front != 0:
                    gave = gave or Give('partial block at the end')
                elif (cur.lo, cur.hi) != (0, 0):
                    if cur.exact and cur.hi > 0:
                        raise Bad('the block can end with %s input blocks not packed' % ('more than %d' % max(cur.lo - 1, 0) if cur.hi > 1000 else cur.hi))
                    if cur.lo > 0:
                        raise Bad('the block can end with %s or more input blocks not packed' % cur.lo)
                    gave = gave or Give('number of blocks packed at the end not known')
                continue
            try:
                o = s.step(i, cur)
            except Give as e:
                gave = gave or e
                continue
            c = a.code[i]
            for j in a.succ[i]:
                q = o
                if c.kind == 'branch' and c.cond and len(a.succ[i]) == 2:
                    q = s.refine(o, c.cond, j != i + 1)
                elif c.kind == 'cbranch':
                    x = o.r.get(c.reg(c.ops[0]))
                    if c.mn in ('cbz', 'cbnz') and x and x[0] == 'n':
                        z = o.copy()
                        z.flags = -x[1]
                        q = s.refine(z, 'eq' if c.mn == 'cbz' else 'ne', j != i + 1)
                if q is None:
                    continue
                old = st.setdefault(j, [])
                if any(join(x, q).key() == x.key() for x in old):
                    continue
                if len(old) >= KEEP:
                    # beyond the bound, states that reach a point are merged
                    q = join(old[-1], q)
                    old[-1] = q
                else:
                    old.append(q)
                todo.append((j, q))
        if gave:
            raise gave
        if len(a.code) not in st:
            raise Bad('the block never ends')
        return len(a.reach())


def operands(f, st, elem):
    """names of the operands that hold the input, the output, the block count and the zero point: by the parameters they are bound to"""
    ps = [p['id'] for p in f['params']]
    role = {}
    for c, e, n in list(st[3]) + list(st[4]):
        x = e
        while x and x[0] == 'cast':
            x = x[3]
        if x and x[0] == 'var' and x[1] in ps:
            role[ps.index(x[1])] = n
        elif c not in ('i', 'n'):
            raise Give('operand %s is not a parameter' % n)
    if not {0, 1, 2} <= set(role) or (elem == 'int8' and 3 not in role):
        raise Give('operands')
    return role


def asm_blocks(k):
    tu = k.snippet('bitpack asm', CODE, 'aarch64')
    seen = 0
    for f in tu.fns.values():
        if not f['q'].endswith('::bitpack_aarch64_4x32') or not f.get('body'):
            continue
        elem = {'<float>': 'float', '<signed char>': 'int8'}.get(f.get('t') or '')
        sts = list(asm.statements(f['body']))
        if elem is None or not sts:
            continue
        oid, what, site = 'asm-' + elem, 'each stored bit is the sign of its own element, for every number of blocks (%s)' % elem, '%s:%s' % (f['file'], sts[0][1])
        seen += 1
        try:
            if len(sts) != 1:
                raise Give('%d assembly statements' % len(sts))
            role = operands(f, sts[0], elem)
            p = Pack(asm.Asm(sts[0], 'aarch64', asm.constants(sts[0])), 512 if elem == 'float' else 128, elem, role[2], role[0], role[1], role.get(3))
            n = p.run()
            k.ok(oid, what, '%d instructions, %d load and %d store visits; 128 bits of provenance per store' % (n, p.loads, p.stores), site)
        except Bad as e:
            k.violation(oid, what, site, str(e))
        except (Give, asm.Unknown) as e:
            k.undecided(oid, what, str(e), site)
        # the assembly handles one block or more: it is not entered with none
        g = graph(k, tu, f, ['input', 'num_blocks', 'output', 'zero'])
        ev = [e for e in g.events if e.kind == 'asm']
        oid, what = 'asm-entry-' + elem, 'the assembly is entered exactly when there is a block to pack'
        if len(ev) != 1:
            k.undecided(oid, what, 'no single assembly event', site)
            continue
        got = [guard_value(g, ev[0], x) for x in (0, 1, 2, 3, 100)]
        k.rule(oid, None if None in got else got == [False, True, True, True, True], what, site, 'entered for 0, 1, 2, 3, 100 blocks: %s' % got)
    if not seen:
        k.undecided('asm', 'assembly packs each element into its own bit', 'no assembly found')


def guard_value(g, ev, n):
    """is the event reached when n blocks are to be packed"""
    from ri import Interp, Model
    it = Interp(Model(1, [(re.compile('^num_blocks'), n, n)]), g.ev.PHI, snap=g.ev.snap)
    try:
        return bool(it.num(ev.guard, {}))
    except Exception:
        return None


PRE = '''#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#define COMPUTE_ENGINE_CORE_BITPACKING_BITPACK_AARCH64_H_
#include "larq_compute_engine/core/types.h"
namespace compute_engine { namespace core { namespace bitpacking {
// what the assembly does, as decided above
struct Word { @DECL@ };
template <typename T> inline void bitpack_aarch64_4x32(const T* input, std::size_t num_blocks, TBitpacked* output, const T zero_point) {
  if (!std::is_same<T, float>::value && !std::is_same<T, std::int8_t>::value) std::abort();
  const T zero = std::is_floating_point<T>::value ? T(0) : zero_point;
  for (int w = 0; w < 4 * (int)num_blocks; ++w) {
    union { Word bits; TBitpacked word; } u;
    const T* in = input + w * 32;
    @SET@
    output[w] = u.word;
  }
}
} } }
'''.replace('@DECL@', ' '.join('unsigned b%d : 1;' % i for i in range(32))).replace('@SET@', ' '.join('u.bits.b%d = in[%d] < zero;' % (i, i) for i in range(32)))


def wide(m, t=None):
    return [128, 129, 160, 127, 256, 33][H(m, 'cols', 6)]


def contract(k):
    """the portable code around the assembly, with the assembly replaced by what it does"""
    src = open(VERIF + '/specs/bitpack.cc').read()
    tu = k.spectext('bitpack around the assembly', PRE + src, 'aarch64')
    for n in ('float', 'int8', 'uint8'):
        rules = [(r'^rows', lambda m, t: 1 + (H(m, 'rows', 4) == 0), None), (r'^cols', wide, None), (r'^zp', c01.zp(n), None), (r'^in\b', c01.elem(n), None)]
        agree(k, 'matrix-' + n, 'blocks, whole words and the remainder together pack every element of every row (%s)' % n, tu, k.fn(tu, 'spec::code_matrix_' + n), k.fn(tu, 'spec::matrix_' + n),
              ['in', 'rows', 'cols', 'out', 'zp'], rules=rules)


def check(k):
    asm_blocks(k)
    c13.contract(k, k.snippet('bitpack asm', CODE, 'aarch64'), 'aarch64', 'aarch64', lambda f: f['q'].endswith('::bitpack_aarch64_4x32'))
    contract(k)
