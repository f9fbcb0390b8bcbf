import re, signal, time
from ev import Ev
from terms import *
import eqv
from eqv import Graph, compare, Result

LCE = 'larq_compute_engine/'


class TimeUp(BaseException):
    pass


class limit:
    """wall-clock bound for one obligation; what is not decided in time is undecided"""
    def __init__(self, k, sec=None):
        self.k = k
        self.sec = max(1, min(sec or (120 if k.tier == 'quick' else 400), k.deadline - time.time()))

    def __enter__(self):
        def up(*a):
            raise TimeUp()
        self.old = signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def graph(k, tu, f, names=None, this=None, calls=None, opaque=None, hooks=None, args=None):
    ev = Ev(tu, opaque, hooks)
    a = dict(args or {})
    if names:
        for p, n in zip(f['params'], names):
            if n is not None and p['name'] not in a:
                a[p['name']] = n if isinstance(n, T) else mk('sym', n)
    v = ev.call_top(f, args=a, this=this)
    k.functions.add('%s %s:%s' % (f['q'], f.get('file'), f.get('line')))
    for q in ev.inlined:
        k.functions.add(str(q))
    return Graph(ev, v, calls)


def agree(k, oid, what, tu, rf, sf, names, this=None, calls=None, opaque=None, hooks=None, stu=None, rargs=None, sargs=None, n=1, snames=None, **kw):
    """repo function rf must denote the same function as the specification sf"""
    if rf is None:
        k.undecided(oid, what, 'the function is not there any more; its callers are compared instead')
        return None
    site = '%s:%s (%s)' % (rf.get('file'), rf.get('line'), rf['q'])
    try:
        with limit(k):
            try:
                r = graph(k, tu, rf, names, this=this, calls=calls, opaque=opaque, hooks=hooks, args=rargs)
            except Exception as e:
                k.undecided(oid, what, 'evaluation failed: %r' % e)
                return None
            s = graph(k, stu or tu, sf, snames or names, this=this, calls=calls, opaque=opaque, hooks=hooks, args=sargs)
            try:
                res = compare(r, s, repo_site=site, seed=k.seed, samples=(40 if k.tier == 'quick' else 300) * n, tries=(800 if k.tier == 'quick' else 6000) * n, **kw)
            except (ArithmeticError, TypeError, LookupError, AttributeError, ValueError, RecursionError) as e:
                k.undecided(oid, what, 'interpretation failed: %r' % e, site)
                return None
    except TimeUp:
        k.undecided(oid, what, 'not decided within the time limit', site)
        return None
    if not res.site:
        res.site = site
    k.result(oid, res, what)
    return r


def opt(k, tu, name, pred=None):
    fs = [f for f in tu.find(name) if f.get('body') is not None and (pred is None or pred(f))]
    return fs[0] if fs else None


def callbacks(k, tu, name):
    """the functions a TFLite registration function installs: {'init': f, 'free': f, 'prepare': f, 'invoke': f}"""
    f = k.fn(tu, name)
    ev = Ev(tu)
    v = ev.call_top(f)
    out = {}
    for n in ('init', 'free', 'prepare', 'invoke'):
        x = ev.load(ev.field(ev.deref(v), n))
        if x.op == 'fnref':
            for y in tu.byq.get(x.a[0].split('<')[0], ()):
                if y['q'] + y.get('t', '') == x.a[0]:
                    out[n] = y
    if 'prepare' not in out or 'invoke' not in out:
        import chk
        raise chk.Broken('the callbacks of %s cannot be resolved' % name)
    return out


def H(m, name, n):
    """deterministic pseudo-random choice in [0,n) per model and name"""
    import zlib
    h = zlib.crc32(('%d|%s' % (m.seed, name)).encode())
    h = zlib.crc32(b'%d' % h, h ^ 0x9e3779b9)
    return (h >> 7) % n


def one_of(name, *vals):
    return lambda m, tok: vals[H(m, name, len(vals))]


def mostly(name, good, bad, pct=6):
    """good with probability 1-pct%, else bad; each may be a callable of the model or a list"""
    def f(m, tok):
        v = bad if H(m, name + '!' + repr(tok), 100) < pct else good
        if callable(v):
            v = v(m)
        if isinstance(v, (list, tuple)):
            v = v[H(m, name + '#' + repr(tok), len(v))]
        return v
    return f


def on_success(o, m):
    """state written by a call that fails is not observable: the node is not usable"""
    return None if m.num(o.ret) == 0 else False
