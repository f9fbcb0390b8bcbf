"""Contract between the ARM assembly blocks and the compiler: what each block, in each instantiation, writes and reads against what its operand and clobber lists declare.
Effects come from an instruction table (registers, flags, memory, write-back); definedness, the stack pointer and operand sharing are dataflow over the block's control-flow graph."""
from common import *
import asm
FLOOR = 20
ASSUMPTIONS = ['the instruction table states what each instruction reads and writes', 'the compiler does not give an input operand the register of an input-output operand (they never hold provably equal values here)']
CODE = '''#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
'''
SMALL = '''#include "tensorflow/lite/kernels/internal/types.h"
using namespace tflite;
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bconv2d/output_transform.h"
template std::int8_t compute_engine::core::shift_saturate<3>(std::int32_t);
'''
R32 = {'lr': 14, 'ip': 12, 'fp': 11, 'pc': 15}


def declared(c, arch):
    """the registers a clobber covers"""
    m = re.match(r'([xwrvqds])(\d+)$', c)
    if not m:
        return [('r', R32[c])] if arch == 'arm32' and c in R32 else []
    k, n = m.group(1), int(m.group(2))
    if arch == 'aarch64':
        return [('r', n)] if k in 'xw' else [('v', n)] if k in 'vqds' else []
    return [('r', n)] if k == 'r' else [('d', 2 * n), ('d', 2 * n + 1)] if k == 'q' else [('d', n)] if k == 'd' else []


def norm(r, arch):
    return ('r', R32[r[1]]) if arch == 'arm32' and r[0] == 'r' and r[1] in R32 else r


def name(r):
    return '%%[%s]' % r[1] if r[0] == 'op' else '%s%s' % r


class Block:
    def __init__(s, tu, f, st, arch):
        s.f, s.arch, s.a = f, arch, asm.Asm(st, arch, asm.constants(st))
        a = s.a
        if a.unnamed:
            raise asm.Unknown('unnamed operands')
        s.live = sorted(a.reach())
        s.bad = []

    def at(s, i):
        return '`%s`' % s.a.code[i].text.strip()

    def run(s):
        a, arch = s.a, s.arch
        clob = set()
        for c in a.clobbers:
            clob |= set(declared(c, arch))
        wr, rd = {}, {}
        for i in s.live:
            for r in a.code[i].writes:
                wr.setdefault(norm(r, arch), i)
            for r in a.code[i].reads:
                rd.setdefault(norm(r, arch), i)
        n = 0
        for r, i in wr.items():
            n += 1
            if r[0] == 'op':
                if r[1] in a.outs:
                    continue
                if r[1] not in a.ins:
                    raise asm.Unknown('operand ' + r[1])
            elif r == ('r', 'sp'):
                continue
            elif r not in clob:
                s.bad.append(('clobber', 'the block writes %s (%s), which is neither an output operand nor in the clobber list' % (name(r), s.at(i))))
        fl = [i for i in s.live if a.code[i].wflags]
        if fl and 'cc' not in a.clobbers and arch != 'aarch64':
            s.bad.append(('flags', 'the block changes the condition flags (%s) without "cc" in the clobber list' % s.at(fl[0])))
        if fl and 'cc' not in a.clobbers and arch == 'aarch64':
            s.bad.append(('flags', 'the block changes the condition flags (%s) without "cc" in the clobber list' % s.at(fl[0])))
        ow = [i for i in s.live for m in a.code[i].mem if m[1] != ('r', 'sp')]
        if ow and 'memory' not in a.clobbers:
            s.bad.append(('memory', 'the block accesses memory (%s) without "memory" in the clobber list' % s.at(ow[0])))
        sw = [i for i in s.live for m in a.code[i].mem if m[0] == 'store' and m[1] != ('r', 'sp')]
        if sw and not a.volatile and a.outs:
            s.bad.append(('volatile', 'the block stores to memory (%s) but is not volatile, so it may be dropped when its outputs are unused' % s.at(sw[0])))
        s.defined()
        s.early()
        s.stack()
        return n

    def flow(s, init, step, meet):
        """forward dataflow over the block"""
        a = s.a
        st, todo = {0: init}, [0]
        while todo:
            i = todo.pop()
            if i >= len(a.code):
                continue
            o = step(i, st[i])
            for j in a.succ[i]:
                v = meet(st[j], o) if j in st else o
                if j not in st or v != st[j]:
                    st[j] = v
                    todo.append(j)
        return st

    def defined(s):
        """every register, output operand and flag is written on every path before it is read"""
        a, arch = s.a, s.arch
        start = frozenset([('op', n) for n in a.ins] + [('op', n) for n, (c, _) in a.outs.items() if c.startswith('+')] + [('r', 'sp')])

        def step(i, d):
            c = a.code[i]
            w = [norm(r, arch) for r in c.writes] + (['flags'] if c.wflags else [])
            return d | frozenset(w)
        st = s.flow(start, step, lambda x, y: x & y)
        for i in s.live:
            c = a.code[i]
            for r in c.reads:
                r = norm(r, arch)
                if r not in st[i]:
                    if c.base in ('eor', 'veor') and len(set(c.ops[-2:])) == 1:
                        continue
                    s.bad.append(('undefined', '%s reads %s, which is not written before it on every path' % (s.at(i), name(r))))
            if c.rflags and 'flags' not in st[i]:
                s.bad.append(('undefined', '%s tests flags that are not set before it on every path' % s.at(i)))
        end = st.get(len(a.code), None)
        if end is not None:
            for n, (c, _) in a.outs.items():
                if c.startswith('=') and ('op', n) not in end:
                    s.bad.append(('unset', 'output operand %%[%s] is not written on every path' % n))

    def early(s):
        """a plain output may share the register of an input: no input is read after it is written"""
        a, arch = s.a, s.arch
        plain = {n for n, (c, _) in a.outs.items() if c.startswith('=') and '&' not in c and not any(x in c for x in 'im')}
        if not plain:
            return
        st = s.flow(frozenset(), lambda i, d: d | {r[1] for r in a.code[i].writes if r[0] == 'op' and r[1] in plain}, lambda x, y: x | y)
        for i in s.live:
            for r in a.code[i].reads:
                if r[0] == 'op' and r[1] in a.ins and a.ins[r[1]][0] not in ('i', 'n') and st[i]:
                    o = sorted(st[i])[0]
                    if cls(a.outs[o][0]) == cls(a.ins[r[1]][0]):
                        s.bad.append(('early', '%s reads input %%[%s] after output %%[%s] was written, which lacks the early-clobber mark and may share its register' % (s.at(i), r[1], o)))

    def stack(s):
        a = s.a
        if not any(('r', 'sp') in c.writes or any(m[1] == ('r', 'sp') for m in c.mem) for c in a.code):
            return

        def step(i, d):
            c = a.code[i]
            if ('r', 'sp') in c.writes:
                m = re.match(r'#?([-+*/()\s\w]+)$', c.ops[-1])
                n = re.match(r'#(\d+)$', c.ops[-1].strip())
                if c.base not in ('add', 'sub') or not n or c.ops[0] != 'sp' or (len(c.ops) == 3 and c.ops[1] != 'sp'):
                    raise asm.Unknown('stack pointer: ' + c.text)
                return d + (int(n.group(1)) if c.base == 'add' else -int(n.group(1)))
            return d

        def meet(x, y):
            if x != y:
                s.bad.append(('stack', 'paths reach the same instruction with different stack pointers (%d and %d)' % (x, y)))
                raise Stop()
            return x
        try:
            st = s.flow(0, step, meet)
        except Stop:
            return
        if st.get(len(a.code), 0) != 0:
            s.bad.append(('stack', 'the block leaves the stack pointer moved by %d' % st[len(a.code)]))
        written = set()
        for i in s.live:
            for k, b, off, wb in a.code[i].mem:
                if b == ('r', 'sp'):
                    m = re.match(r'#(-?\d+)$', off)
                    if not m:
                        raise asm.Unknown('stack access ' + a.code[i].text)
                    o = int(m.group(1))
                    if o < 0 or o + 4 > -st[i]:
                        s.bad.append(('stack', '%s accesses the stack outside the %d bytes the block reserved' % (s.at(i), -st[i])))

    def modified(s):
        """input-only operands the block writes"""
        out = {}
        for i in s.live:
            for r in s.a.code[i].writes:
                if r[0] == 'op' and r[1] not in s.a.outs:
                    out.setdefault(r[1], i)
        return out


class Stop(Exception):
    pass


def cls(c):
    return 'w' if 'w' in c or 't' in c else 'r'


def strip(e):
    while e and e[0] == 'cast':
        e = e[3]
    return e


def operand(e):
    """(variable id, index) an operand expression names"""
    e = strip(e)
    if e and e[0] == 'index':
        b, x = strip(e[1]), strip(e[2])
        if b and b[0] == 'var' and x and x[0] == 'int':
            return b[1], int(x[1])
    if e and e[0] == 'var':
        return e[1], None
    return None


def mentions(n, v):
    if isinstance(n, list):
        if len(n) > 2 and n[0] == 'var' and n[1] == v:
            return True
        return any(mentions(x, v) for x in n if isinstance(x, (list, dict)))
    if isinstance(n, dict):
        return any(mentions(x, v) for x in n.values() if isinstance(x, (list, dict)))
    return False


def calls_to(n, fid, path=()):
    if isinstance(n, list):
        if n and n[0] == 'call' and isinstance(n[1], list) is False and isinstance(n[1], dict) and n[1].get('id') == fid:
            yield n, path
        for i, x in enumerate(n):
            if isinstance(x, (list, dict)):
                yield from calls_to(x, fid, path + ((n, i),))
    elif isinstance(n, dict):
        for x in n.values():
            if isinstance(x, (list, dict)):
                yield from calls_to(x, fid, path + ((n, None),))


def overwritten(tu, blocks, b, which):
    """is every input operand in `which` (of block b) dead after the block, because each caller next hands its variable to a block that only writes it?"""
    f = b.f
    need = {}
    for n in which:
        v = operand(b.a.ins[n][1])
        if v is None:
            return None, 'operand %s is not a variable or array element' % n
        need.setdefault(v[0], set()).add(v[1])
    ps = [p['id'] for p in f['params']]
    for v in need:
        if v not in ps:
            return None, 'modified input %s is not a parameter element' % v
    sites = 0
    for g in tu.fns.values():
        if not g.get('body'):
            continue
        for c, path in calls_to(g['body'], f['id']):
            sites += 1
            for v, idx in need.items():
                a = strip(c[2][ps.index(v)])
                if a[0] != 'var' and None in idx:
                    return False, 'the compiler may still hold the argument of the call at line %s in that register' % c[3]
                if a[0] != 'var':
                    return None, 'argument is not a variable'
                ok = False
                for node, i in reversed(path):
                    if isinstance(node, list) and node and node[0] in ('loop', 'rangefor'):
                        return False, 'the loop around the call at line %s goes round before the variable is written again' % c[3]
                    if isinstance(node, list) and node and isinstance(node[0], list):
                        nxt = [x for x in node[i + 1:] if mentions(x, a[1])]
                        if nxt:
                            r = kills(tu, blocks, nxt[0], a[1], idx)
                            if r is not True:
                                return r, 'the next use of the variable after the call at line %s does not rewrite it first' % c[3]
                            ok = True
                            break
                if not ok:
                    ok = True
    if not sites and sum(1 for p in ps if p in need) and all(idx == {None} for idx in need.values()):
        return False, 'a caller the function is inlined into may still hold the argument in that register'
    return (True, '%d call sites' % sites) if sites else (None, 'no call site')


def kills(tu, blocks, stmt, var, idx):
    """statement is a call of a function whose block has each element only as an output, and which does not use it before"""
    e = stmt
    while e and e[0] in ('expr', 'cast'):
        e = e[2] if e[0] == 'expr' else e[3]
    if e and e[0] == 'assign':
        l = strip(e[2])
        if e[1] == '=' and l and l[0] == 'var' and l[1] == var:
            return not mentions(e[3], var)
        return False
    if not e or e[0] != 'call' or not isinstance(e[1], dict):
        return None
    h = e[1].get('id')
    hb = [b for b in blocks if b.f['id'] == h]
    if len(hb) != 1:
        return None
    pos = [i for i, x in enumerate(e[2]) if mentions(x, var)]
    if len(pos) != 1:
        return None
    p = hb[0].f['params'][pos[0]]['id']
    outs = {operand(x)[1] for c, x in hb[0].a.outs.values() if c.startswith('=') and operand(x) and operand(x)[0] == p}
    ins = [n for n, (c, x) in hb[0].a.ins.items() if mentions(x, p)]
    if ins:
        return False
    return True if idx <= outs else False


def check(k):
    for arch, mode, code in (('aarch64', 'aarch64', CODE), ('arm32', 'arm32', CODE), ('arm32', 'thumb', SMALL)):
        contract(k, k.snippet('asm' if code is CODE else 'asm helpers', code, mode), arch, mode)


def contract(k, tu, arch, mode, of=lambda f: True):
    blocks = []
    for f in tu.fns.values():
        if not of(f):
            continue
        for st in asm.statements(f.get('body')):
            oid = '%s-%s%s-%s' % (mode, f['q'].split('::')[-2] + '::' + f['q'].split('::')[-1], (f.get('t') or '').replace(' ', ''), ordinal(tu, f, st))
            what = 'what the assembly reads and writes is what it declares'
            site = '%s:%s' % (f['file'], st[1])
            try:
                b = Block(tu, f, st, arch)
                n = b.run()
            except asm.Unknown as e:
                k.undecided(oid, what, 'not understood: %s' % e, site)
                continue
            b.oid, b.site = oid, site
            blocks.append(b)
            if b.bad:
                k.violation(oid, what, site, '; '.join(x[1] for x in b.bad[:4]))
            else:
                k.ok(oid, what, '%d instructions, %d registers written, %d operands' % (len(b.live), n, len(b.a.outs) + len(b.a.ins)), site)
    for b in blocks:
        mod = b.modified()
        if not mod:
            continue
        oid, what = b.oid + '-inputs', 'no input-only operand is modified while its value is still needed'
        r, why = overwritten(tu, blocks, b, mod)
        first = sorted(mod.items(), key=lambda x: x[1])[0]
        if r is True:
            k.ok(oid, what, 'modified inputs %s are rewritten by the next block that takes them (%s)' % (', '.join(sorted(mod)), why), b.site)
        elif r is False:
            k.violation(oid, what, b.site, 'input-only operand %%[%s] is modified by %s; %s' % (first[0], b.at(first[1]), why))
        else:
            k.undecided(oid, what, why, b.site)


def ordinal(tu, f, st):
    same = [g for g in tu.fns.values() if g['q'] == f['q'] and (g.get('t') or '') == (f.get('t') or '') and any(True for _ in asm.statements(g.get('body')))]
    same.sort(key=lambda g: g['line'])
    return '%d' % (1 + [g['id'] for g in same].index(f['id']))
