"""Obligations over Python sources (engine/pyfx.py)"""
import os, time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
import chk, pyfx

REPO = os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/'
JOBS = {}


def job(a):
    name, seed, samples, budget = a
    r, s, kw = JOBS[name]
    try:
        return pyfx.compare(r, s, seed=seed, samples=samples, budget=budget, **kw)
    except pyfx.Unsupported as e:
        return 'undecided', str(e)


def module(k, path):
    key = 'py:' + path
    if key not in k._tus:
        try:
            k._tus[key] = pyfx.Module(path)
        except SyntaxError as e:
            raise chk.Broken('%s does not parse: %s' % (path, e))
        k.units.append(path)
    return k._tus[key]


def summary(k, mod, fn, args=None, opaque=(), pure=(), cls=None, this=None):
    ev = pyfx.Ev(mod, pure=pure, opaque=opaque)
    f = mod.find(fn) if isinstance(fn, str) else fn
    ev.run(f, args, cls=cls)
    k.functions.add('%s:%s %s' % (mod.path, f.lineno, getattr(f, 'name', '')))
    for q in ev.inlined:
        k.functions.add('%s %s (expanded)' % (mod.path, q))
    return ev


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def agree(k, oid, what, path, fn, spec, sfn, args=None, opaque=(), sopaque=None, pure=(), scalar=lambda n: None, seq=(), only=lambda e: True,
          budget=None, need=True, byname=False, cls=None, samples=100000, skip=None):
    """function fn of a repository file has the effects of the reference function; parameters correspond by position (or by name)"""
    mod = module(k, REPO + path)
    smod = module(k, chk.VERIF + '/specs/' + spec)
    f = mod.find(fn)
    if f is None:
        if need:
            raise chk.Broken('function %s of %s not found' % (fn, path))
        k.undecided(oid, what, 'the function is not there any more; its callers are compared instead')
        return
    site = '%s:%d (%s)' % (path, f.lineno, fn)
    sf = smod.find(sfn)
    ra, sa = {}, {}
    if not byname:
        for i, (n, m) in enumerate(zip(params(f), params(sf))):
            t = (args or {}).get(i, ('sym', m))
            ra[n] = sa[m] = t
    try:
        r = summary(k, mod, f, ra, opaque, pure, cls=cls)
    except (pyfx.Unsupported, RecursionError) as e:
        k.undecided(oid, what, str(e), site)
        return
    s = summary(k, smod, sf, sa, sopaque if sopaque is not None else opaque, pure)
    budget = float(os.environ.get('PYC_BUDGET', 0)) or budget or (18 if k.tier == "quick" else 90)
    budget = max(2, min(budget, k.deadline - time.time()))
    JOBS[oid] = (r, s, dict(scalar=scalar, seq=seq, only=only, skip=skip))
    n = 8
    try:
        r0 = pyfx.compare(r, s, seed=k.seed, samples=3, scalar=scalar, seq=seq, only=only, skip=skip)
        if r0[0] != 'agree':
            res = [r0]
        else:
            with ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork')) as ex:
                res = list(ex.map(job, [(oid, k.seed * 1000 + i + 1, samples // n, budget) for i in range(n)]))
    except pyfx.Unsupported as e:
        res = [('undecided', str(e))]
    for x in res:
        if x[0] == 'differ':
            text, line = x[1]
            k.violation(oid, what, '%s:%s (%s)' % (path, line or f.lineno, fn), text)
            return
    for x in res:
        if x[0] == 'undecided':
            k.undecided(oid, what, x[1], site)
            return
    if res[0][0] == 'identical':
        k.ok(oid, what, 'the effect summaries are identical', site)
        return
    fired = {}
    for x in res:
        for e, c in x[1][0].items():
            fired[e] = fired.get(e, 0) + c
    missing = sorted({'%s.%s@%s' % (e.kind, e.name, e.line) for e in res[0][1][1] if (e.kind, e.name, e.line) not in fired})
    k.obls.append((oid, 'agree', what, site, '%d effects instantiated%s' % (sum(fired.values()), '; not instantiated: ' + ' '.join(missing) if missing else '')))


def signature(k, path, fn, spec, sfn):
    """parameter names, which are keyword-only, and their default expressions"""
    what = 'parameters, their kinds and defaults are the documented ones'
    m, s = module(k, REPO + path), module(k, chk.VERIF + '/specs/' + spec)
    f, g = m.find(fn), s.find(sfn)
    if f is None:
        raise chk.Broken('function %s not found' % fn)

    def facts(mod, f):
        ev = pyfx.Ev(mod)
        ev.fr = pyfx.Frame(None, {}, None)
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        for n, e in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, e) for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None]:
            try:
                d[n] = ev.mat(ev.ex(e))
            except pyfx.Unsupported:
                d[n] = None
        return pos, {x.arg for x in a.kwonlyargs}, d
    p, q = facts(m, f), facts(s, g)
    site = '%s:%d (%s)' % (path, f.lineno, fn)
    for n in q[0] + sorted(q[1]):
        if n not in p[0] and n not in p[1]:
            k.violation('signature.' + fn, what, site, 'parameter %s is missing' % n)
            return
    if p[0][:len(q[0])] != q[0]:
        k.violation('signature.' + fn, what, site, 'the positional parameters are %s, not %s' % (', '.join(p[0]), ', '.join(q[0])))
        return
    for n, e in q[2].items():
        if p[2].get(n) not in (None, e):
            k.violation('signature.' + fn, what, site, 'the default of %s is %s, not %s' % (n, pyfx.show(p[2][n]), pyfx.show(e)))
            return
    k.ok('signature.' + fn, what, 'parameters %s' % ', '.join(p[0] + sorted(p[1])), site)
