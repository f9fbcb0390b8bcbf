"""Agreement of a function of /repo with its specification, decided on their value graphs.

Both are evaluated by ev.py to canonical graphs.  Observables: final writes to non-local memory, the returned value and
selected opaque calls.  Verdict per obligation:
  proved    - the observables are the same canonical terms
  agree     - terms differ syntactically, and finite-model interpretation found no model separating them
  undecided - the repo graph leaves the vocabulary or the analysable fragment
  violated  - a model separates the two graphs (definite: they denote different functions)
"""
import re
from fractions import Fraction
import terms as tm
from terms import TRUE, FALSE, T, show
from ev import Ev
import ri
from ri import Interp, Model, Undecided, Reject, tokname

ELEM = 4


def kidsof(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


VEC = Ev.VEC


def vocab(roots, known=()):
    seen, out = set(), set()
    st = [r for r in roots if r is not None]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('call', 'upd', 'ctor', 'make', 'pcall', 'gv', 'numlimit', 'dyncast', 'agg0'):
            h = t.a[1] if t.op == 'upd' else t.a[0]
            if t.op == 'agg0' and isinstance(h, str) and VEC.match(h):
                continue        # an empty container
            out.add((t.op if t.op not in ('agg0',) else 'agg', h if isinstance(h, str) else 'ptr'))
        elif t.op in ('field', 'fld'):
            out.add(('field', t.a[1]))
        elif t.op in ('ranged', 'hist', 'pcast', 'shuffle', 'asmout', 'unk', 'big', 'lamcall', 'cbphi', 'cbexit', 'fconst', 'str'):
            out.add((t.op, t.a[0] if t.a and isinstance(t.a[0], (str, int)) else ''))
        st.extend(kidsof(t))
    return out


class Graph:
    """observables of one evaluated function"""
    def __init__(self, ev, value=None, calls=None, events=None):
        self.ev = ev
        self.value = value
        self.events = events if events is not None else ev.events
        self.calls = re.compile(calls) if calls else None
        self.writes = [e for e in self.events if e.kind in ('store', 'range')]
        self.cev = [e for e in self.events if e.kind in ('call', 'pcall', 'abort', 'delete', 'throw') and self.calls and self.calls.search(e.kind if e.kind in ('delete', 'throw') else str(e.q))]

    def roots(self):
        out = []
        for e in self.writes + self.cev:
            out += ([] if e.kind == 'throw' else list(e.args)) + [e.guard]
            if e.obj is not None:
                out.append(e.obj)
            for L in e.loops:
                if L.trip is not None:
                    out.append(L.trip)
        if self.value is not None:
            out.append(self.value)
        return out


def lkey(loops):
    return tuple((L.trip, L.cond if L.trip is None or L.trip.op == 'trip' else None, L.isdo, tuple(L.brkg)) for L in loops)


def evkey(e):
    return (e.kind, e.q if e.kind != 'store' else None, e.args if e.kind != 'throw' else (), e.obj, e.guard, lkey(e.loops))


class Obs:
    pass


def interpret(g, model, want_ret=True, ordered=False, roots=None):
    it = Interp(model, g.ev.PHI, snap=g.ev.snap)
    it.bounds = not any(e.kind == 'vec' and e.q in ('resize', 'clear', 'assign') for e in g.ev.events)
    mem = {}
    src = {}
    calls = []

    def put(l, v, e):
        mem[l] = v
        src[l] = e

    fired = set()

    def sink(e, env):
        fired.add(e)
        if e.kind == 'store':
            l = it.ev(e.args[0], env)
            if roots is not None and root(l) not in roots:
                try:
                    put(l, it.ev(e.args[1], env), e)
                except Undecided:
                    put(l, ('undecided',), e)
                return
            put(l, it.ev(e.args[1], env), e)
        elif e.kind == 'range':
            dst, n, val = e.args
            p = it.ev(dst, env)
            bytes_ = n.op == 'bytes'
            cnt = it.num(n.a[0] if bytes_ else n, env)
            if bytes_:
                if cnt % ELEM:
                    raise Undecided('byte copy')
                cnt //= ELEM
            if cnt > 4000:
                raise Reject('range')
            base = it.loc(p)
            if not (isinstance(base, tuple) and base[0] == 'p'):
                base = ('p', ('addr', base), 0)
            for i in range(max(0, int(cnt))):
                l = ('p', base[1], base[2] + i)
                if val.op == 'range':
                    s = it.loc(it.ev(val.a[0], env))
                    if not (isinstance(s, tuple) and s[0] == 'p'):
                        s = ('p', ('addr', s), 0)
                    sl = ('p', s[1], s[2] + i)
                    v = mem.get(sl, ('init', sl))
                else:
                    v = it.ev(val, env)
                    if bytes_ and v not in (0, False):
                        raise Undecided('memset')
                put(l, v, e)
        else:
            calls.append((('throw', None, ()) if e.kind == 'throw' else (str(e.q), it.ev(e.obj, env) if e.obj is not None else None,
                           tuple(it.ev(a, env) for a in e.args if a.op != 'lam')), e))
    evs = [e for e in g.events if e in g.wset or e in g.cset]
    it.run(evs, sink)
    o = Obs()
    o.mem, o.src, o.calls, o.steps = mem, src, calls, it.steps
    o.used = it.used
    o.fired = fired
    o.ret = it.ev(g.value, {}) if want_ret and g.value is not None else None
    al = it.phireads & set(mem)
    if al:
        raise Undecided('read of written memory through a loop-carried pointer: %s' % tokname(next(iter(al))))
    o.used |= {(e.kind, str(e.q)) for c, e in calls if e.kind in ('call', 'pcall')}
    return o


def sel_(v, i):
    if isinstance(v, tuple) and v and v[0] == 'A':
        for j, x in v[2]:
            if j == i:
                return x
        b = v[1]
        if b == 'zarr':
            return 0
        if isinstance(b, tuple) and b and b[0] == 'fill':
            return b[1]
        return sel_(b, i) if isinstance(b, tuple) else ('none',)
    if isinstance(v, tuple) and v and v[0] == 'init':
        l = v[1]
        if isinstance(l, tuple) and l[0] == 'p' and l[2] == 0:
            return ('init', ('p', l[1], i))
        return ('init', ('p', ('addr', l), i))
    return ('sel', v, i)


def base_(v):
    while isinstance(v, tuple) and v and v[0] == 'A':
        v = v[1]
    return v


def same(m, a, b):
    if a is b or a == b:
        return True
    ta, tb = isinstance(a, tuple), isinstance(b, tuple)
    if not ta and not tb:
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return False
        x, y = m.num(a), m.num(b)
        return x == y or isinstance(x, int) and isinstance(y, int) and (x - y) % (1 << 32) == 0
    if not ta or not tb:
        if isinstance(a, str) or isinstance(b, str):
            return False
        return m.num(a) == m.num(b)
    if a and b and (a[0] == 'A' or b[0] == 'A'):
        ks = set()
        for v in (a, b):
            while isinstance(v, tuple) and v and v[0] == 'A':
                ks |= {j for j, _ in v[2]}
                v = v[1]
        ba, bb = base_(a), base_(b)
        if ba not in ('none', 'undef') and bb not in ('none', 'undef') and not same(m, ba, bb):
            if isinstance(ba, str) != isinstance(bb, str) and False:
                return False
            return False
        return all(same(m, sel_(a, i), sel_(b, i)) for i in ks)
    va, vb = isvec(a), isvec(b)
    if va != vb and (a if vb else b)[0] in ('call', 'sel', 'fld', 'init', 'sym'):
        v, o = (a, b) if va else (b, a)
        (_, d), (_, n) = v[2]
        # an opaque container against one written out element by element
        return same(m, n, ('fld', o, '#n')) and all(same(m, sel_(d, i), ('sel', ('fld', o, '#d'), i)) for i in range(n))
    if len(a) != len(b):
        return False
    return all(same(m, x, y) for x, y in zip(a, b))


def isvec(v):
    return bool(v) and v[0] == 'obj' and v[1] == 'vec'


def root(l):
    if isinstance(l, tuple) and l and l[0] == 'p':
        return ('arr', l[1])
    return l


class Result:
    def __init__(self, status, why='', site='', detail='', samples=0):
        self.status, self.why, self.site, self.detail, self.samples = status, why, site, detail, samples

    def __repr__(self):
        return '%s %s %s %s (%d)' % (self.status, self.why, self.site, self.detail, self.samples)


FAILS = {'trip': 'the code does not leave a loop', 'division by zero': 'the code divides by zero', 'shift': 'the code shifts by a negative or too large amount', 'bounds': 'the code writes past the end of a container',
         'out of bounds': 'the code reads past the end of a list'}


def fails(repo, m, ret, roots, kind, failed):
    """the code has no value where the specification has one: a loop counts as endless when a much larger bound does not end it either"""
    if kind != 'trip':
        return kind in FAILS
    old, ri.MAXTRIP = ri.MAXTRIP, 3000
    try:
        interpret(repo, m, ret, roots=roots)
        return False
    except Reject as e:
        return str(e) == 'trip'
    except Undecided:
        return False
    finally:
        ri.MAXTRIP = old


def site(e):
    return '%s:%s (%s)' % (e.file, e.line, e.fn)


def compare(repo, spec, rules=(), default=(0, 6), pre=None, samples=40, tries=600, seed=1, ret=True, mem=True,
            known=(), maxsteps=3000000, retmap=None, ignore=None, callmap=None, ordered=False, repo_site='', relevant=None):
    """repo, spec: Graph"""
    for g in (repo, spec):
        g.wset = set(g.writes) if mem else set()
        g.cset = set(g.cev)
    ident = True
    if ret and repo.value is not spec.value:
        ident = False
    if ident and mem:
        kr, ks = [evkey(e) for e in repo.writes], [evkey(e) for e in spec.writes]
        if kr != ks:
            ident = False
    if ident and [evkey(e) for e in repo.cev] != [evkey(e) for e in spec.cev]:
        ident = False
    if ident:
        return Result('proved', 'identical canonical value graphs', samples=0)
    vr, vs = vocab(repo.roots()), vocab(spec.roots())
    strs = sorted({x[1] for x in vr | vs if x[0] == 'str'})
    extra = {x for x in vr - vs if not any(k.search('%s:%s' % x) for k in known)}
    n = 0
    rej = 0
    rules = [(re.compile(r[0]) if isinstance(r[0], str) else r[0],) + tuple(r[1:]) for r in rules]
    t = 0
    und = blocked = None
    fired, rets = set(), set()
    failed = {}
    while n < samples and t < tries:
        t += 1
        ri.SIGNED = False
        m = Model(seed * 7919 + t, rules, default)
        m.strs = strs
        try:
            if pre is not None and not pre(m):
                rej += 1
                continue
            specok = False
            os_ = interpret(spec, m, ret)
            roots = {root(l) for l in os_.mem}
            specok = True
            try:
                or_ = interpret(repo, m, ret, roots=roots)
            except Reject as e:
                if str(e) != 'negative division':
                    raise
                ri.SIGNED = True
                or_ = interpret(repo, m, ret, roots=roots)
        except Reject as e:
            rej += 1
            if specok and fails(repo, m, ret, roots, str(e), failed):
                failed[str(e)] = failed.get(str(e), 0) + 1
                if failed[str(e)] >= max(4, t // 12):
                    asg = ', '.join('%s=%s' % (tokname(k)[-60:], v) for k, v in list(m.cache.items())[:24])
                    return Result('violated', FAILS.get(str(e), str(e)), repo_site, 'where the specification is defined, such as when ' + asg, n)
            continue
        except Undecided as u:
            und = str(u)
            if n == 0 and t > 5 or t > 30:
                return Result('undecided', und)
            continue
        n += 1
        fired |= os_.fired | or_.fired
        rets.add(repr(os_.ret))
        bad = None
        ign = ignore
        nocalls = False
        if relevant:
            rv = relevant(os_, m)
            if rv is False:
                ign, nocalls = (lambda nm: True), True
            elif callable(rv):
                ign = lambda nm, rv=rv: not rv(nm) or bool(ignore and ignore(nm))
        # what is returned after an exception does not matter
        threw = [any(c[0] == 'throw' for c, _ in o.calls) for o in (os_, or_)]
        if ret and not all(threw) and not same(m, retmap(or_.ret, m) if retmap else or_.ret, retmap(os_.ret, m) if retmap else os_.ret):
            bad = ('return value', '', 'spec %s, code %s' % (sv(os_.ret), sv(or_.ret)))
        if not bad and mem:
            for l, v in os_.mem.items():
                if ign and ign(tokname(l)):
                    continue
                if l not in or_.mem:
                    if same(m, v, ('init', l)):
                        continue        # writing back what was there
                    bad = ('%s is not written' % tokname(l), site(os_.src[l]), 'spec writes %s' % sv(v))
                    break
                if l[0] == 'f' and l[2] == '#n' and m.num(or_.mem[l]) >= m.num(v):
                    continue        # a larger buffer serves as well
                if not same(m, or_.mem[l], v):
                    bad = ('%s is written differently' % tokname(l), site(or_.src[l]), 'spec %s, code %s' % (sv(v), sv(or_.mem[l])))
                    break
            if not bad:
                for l, v in or_.mem.items():
                    if ign and ign(tokname(l)):
                        continue
                    if l in os_.mem or l[0] == 'f' and l[2] == '#n':
                        continue
                    if root(l) in roots and root(l)[0] == 'arr' or l[0] == 'f' and ('field', l[2]) in vs and root(l) not in roots and \
                            v != ('undecided',) and not same(m, v, ('init', l)):
                        bad = ('%s is written but must not be' % tokname(l), site(or_.src[l]), 'code writes %s' % sv(v))
                        break
        if not bad and not nocalls and (spec.cev or repo.cev):
            groups = {}
            for w, o in ((0, os_), (1, or_)):
                gone = False
                for c, e in o.calls:
                    if ordered and gone:
                        break
                    gone = gone or c[0] == 'throw'
                    if callmap:
                        c = callmap(c)
                        if c is None:
                            continue
                    # calls on different receivers commute
                    groups.setdefault('' if ordered else (c[0], c[1]), ([], []))[w].append((c, e))
            for gs, gr in groups.values():
                for i in range(max(len(gs), len(gr))):
                    if i >= len(gr):
                        bad = ('call %s is missing' % gs[i][0][0], repo_site, 'required: %s' % sv(gs[i][0]))
                    elif i >= len(gs):
                        bad = ('call %s is not allowed here' % gr[i][0][0], site(gr[i][1]), sv(gr[i][0]))
                    elif not same(m, gs[i][0], gr[i][0]):
                        bad = ('call %s differs' % gr[i][0][0], site(gr[i][1]), 'spec %s, code %s' % (sv(gs[i][0]), sv(gr[i][0])))
                    if bad:
                        break
                if bad:
                    break
        if bad:
            # definite only if this model's evaluation never met an operation the specification does not know
            ex = extra & or_.used
            if ex:
                blocked = blocked or Result('undecided', 'code uses %s, outside the vocabulary of the specification' % sorted(ex)[:4], bad[1], bad[0], n)
                continue
            asg = ', '.join('%s=%s' % (tokname(k)[-60:], v) for k, v in list(m.cache.items())[:24])
            return Result('violated', bad[0], bad[1], bad[2] + ' when ' + asg, n)
    if n == 0:
        return Result('undecided', und or 'no sample in the domain (%d rejected)' % rej)
    if blocked:
        return blocked
    dead = {}
    for nm, g, o in (('specification', spec, repo), ('code', repo, spec)):
        # an effect that both perform in the same way cannot separate them
        both = {evkey(e) for e in o.events if e in o.wset | o.cset}
        dead[nm] = [e for e in g.events if e in g.wset | g.cset and e not in fired and e.guard is not FALSE and evkey(e) not in both]
    if dead['specification']:
        e = dead['specification'][0]
        return Result('undecided', 'a required effect is never reached by the sampled models: %s %s' % (e.kind, str(e.q)[-40:]), site(e), '%d effects' % len(dead['specification']), n)
    if ret and spec.value is not None and len(rets) < 2 and n > 1 and spec.value.op in ('ite', 'poly', 'call', 'sel'):
        return Result('undecided', 'all sampled models give the same result', repo_site, '', n)
    r = Result('agree', 'not separated', samples=n)
    if dead['code']:
        r.why = 'not separated; effects of the code no sampled model reaches: %s' % ', '.join(sorted({site(e) for e in dead['code']}))
    return r


def sv(v):
    s = tokname(v) if isinstance(v, tuple) else str(v)
    return s if len(s) < 200 else s[:200] + '...'
