"""Helpers for MLIR rewrites: the pass behind a Create function, the patterns it registers and applies, and canonical forms of builder calls."""
from common import *


def tsplit(t):
    """template argument list '<a, b<c, d>>' -> ['a', 'b<c, d>']"""
    t = t.strip()
    if t.startswith('<') and t.endswith('>'):
        t = t[1:-1]
    out, d, cur = [], 0, ''
    for ch in t:
        d += ch in '<(['
        d -= ch in '>)]'
        if ch == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def pass_run(k, tu, create, this=None):
    """evaluated runOnOperation of the pass that the factory function `create` makes: (function, Ev) or (None, reason)"""
    f = opt(k, tu, create)
    if f is None:
        return None, '%s not found' % create
    ev = Ev(tu)
    ev.call_top(f)
    made = [str(e.q) for e in ev.events if e.kind == 'make'] or [str(e.q) for e in ev.events if e.kind in ('new', 'ctor')]
    cls = None
    for q in made:
        m = re.match(r'^<?(.*?)>?$', q)
        cls = tsplit(m.group(1))[0] if m else None
    if cls is None:
        return None, 'the pass class made by %s cannot be resolved' % create
    run = method(tu, cls, 'runOnOperation')
    if run is None:
        return None, 'runOnOperation of %s not found' % cls
    k.functions.add('%s %s:%s' % (run['q'], run.get('file'), run.get('line')))
    ev = Ev(tu)
    ev.call_top(run, this=mk('sym', 'this'))
    return run, ev


def method(tu, cls, name, depth=0):
    """the definition of method `name` in class cls or its nearest base"""
    c = cls.replace('struct ', '').replace('class ', '').strip()
    for f in tu.fns.values():
        if f.get('body') is not None and f['q'].split('::')[-1] == name and f['q'][:-len(name) - 2] in (c, c.split('<')[0] if '<' not in f['q'] else None):
            return f
    r = tu.records.get(c)
    for b_ in (r or {}).get('bases', []):
        g = method(tu, b_ if isinstance(b_, str) else b_.get('type', ''), name, depth + 1) if depth < 6 else None
        if g is not None:
            return g
    return None


def registered(ev):
    """pattern classes added to any pattern set, with the guard they are added under: [(class, guard, line)]"""
    out = []
    for e in ev.events:
        if e.kind != 'call':
            continue
        m = re.match(r'^\.(add|insert)(<.*>)$', str(e.q))
        if m and e.obj is not None and 'PatternSet' in str(e.obj):
            out += [(x, e.guard, e.line) for x in tsplit(m.group(2)) if '::' in x and not re.match(r'^(mlir::MLIRContext|mlir::PatternBenefit|llvm::)', x) and '*' not in x and not x.startswith('void')]
    return out


def applied(ev):
    """the greedy driver runs unconditionally over the pass's operation: True / False / None"""
    es = [e for e in ev.events if e.kind == 'call' and 'applyPatterns' in str(e.q)]
    if not es:
        # unless something else is given the patterns, nothing can apply them
        return False if untouched(ev, r'applyPatterns|populateWithGenerated|^\.(add|insert)<|PatternSet$') else None
    return any(e.guard is TRUE and e.args and 'getOperation' in str(e.args[0]) and not e.loops for e in es)


def rewriter(c):
    """a rewriter call: `replaceOpWithNewOp<X, types...>` -> X; contexts are all the same"""
    q, obj, args = c
    m = re.match(r'^\.(replaceOpWithNewOp|create|createOrFold)(<.*>)$', q)
    if m:
        q = '%s<%s>' % (m.group(1), tsplit(m.group(2))[0])
    return (q, None) + tuple(ctx(a) for a in args)


def ctx(v):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] == 'call' and str(v[1]).endswith('getContext'):
            return 'context'
        return tuple(ctx(x) for x in v)
    return v


def untouched(ev, own='applyPatterns'):
    """no call other than the driver ever receives the pattern set"""
    return not any(e.kind in ('call', 'pcall') and not re.search(own, str(e.q)) and ('PatternSet' in str(e.obj) or any('PatternSet' in str(a) for a in e.args)) for e in ev.events)
