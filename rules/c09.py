"""Zero padding on top of one padding: caching the corrections and applying them adds, to every output element, minus the multiplier times the sum of the
filter values that lie outside the image, for every filter, stride, dilation and image size; the cache is large enough."""
from common import *
from ri import Interp, Model, Reject, Undecided
FLOOR = 2
ASSUMPTIONS = ['integers do not overflow', 'floats are treated as reals', 'SAME padding: the output extent is ceil(input / stride); the total padding is not negative']


def check(k):
    import c10
    c10.wiring(k, only='kOptimized')
    tu = k.spec('zero_padding.cc')
    a = ['filter', 'fh', 'fw', 'fc', 'channels', 'dil_h', 'dil_w', 'multiplier', 'cache', 'batches', 'ih', 'iw', 'sh', 'sw', 'out', 'oh', 'ow']
    S = lambda n, v: (r'^%s$' % n, one_of(n, *v), None)
    V = {'sh': [1, 2, 1, 3], 'sw': [1, 2, 1, 3], 'ih': [1, 2, 3, 4, 5], 'iw': [1, 2, 3, 4, 5]}
    ru = [S('fh', [1, 2, 3, 3, 4]), S('fw', [1, 2, 3, 3, 4]), S('fc', [1, 2]), S('channels', [32, 5, 33, 64]), S('dil_h', [1, 1, 2, 3]), S('dil_w', [1, 1, 2, 3]), S('batches', [1, 2])]
    ru += [S(n, v) for n, v in V.items()]
    pick = lambda m, n: V[n][H(m, n, len(V[n]))]
    up = lambda x, y: -(-x // y)
    ru += [(r'^oh$', lambda m, t: up(pick(m, 'ih'), pick(m, 'sh')), None), (r'^ow$', lambda m, t: up(pick(m, 'iw'), pick(m, 'sw')), None)]
    ru += [(r'^filter', lambda m, t: H(m, repr(t), 1 << 32) - (1 << 31), None), (r'^multiplier', 1, 9), (r'^out', 0, 50), (r'^cache', 1000, 9000)]
    g = agree(k, 'correction', 'cache and application together correct exactly the filter values outside the image', tu, k.fn(tu, 'spec::Composed'), k.fn(tu, 'spec::Composed32'), a,
              rules=ru, ignore=lambda nm: nm.startswith("cache"), ret=False, n=4)
    oid, what = 'cache-size', 'every cached correction lies inside the size that preparation reserves'
    if g is None:
        k.undecided(oid, what, 'evaluation failed')
        return
    g.wset, g.cset = set(g.writes), set()
    import re
    rules = [(re.compile(r[0]),) + tuple(r[1:]) for r in ru]
    n = t = 0
    site = ''
    try:
        with limit(k):
            while n < 60 and t < 400:
                t += 1
                m = Model(k.seed * 104729 + t, rules)
                try:
                    o = eqv.interpret(g, m)
                    size = m.num(o.ret)
                except Reject:
                    continue
                except Undecided as u:
                    k.undecided(oid, what, str(u))
                    return
                n += 1
                for l in o.mem:
                    if l[0] == 'p' and eqv.tokname(l[1]) == 'cache':
                        site = eqv.site(o.src[l])
                        if not 0 <= l[2] < size:
                            k.violation(oid, what, site, 'entry %d of a cache of %s when %s' % (l[2], size, ', '.join('%s=%s' % (eqv.tokname(x), v) for x, v in list(m.cache.items()) if len(eqv.tokname(x)) < 9)))
                            return
    except TimeUp:
        k.undecided(oid, what, 'not decided within the time limit')
        return
    k.rule(oid, True if n and site else None, what, site, '%d models' % n)
