"""Check driver:  python3 engine/chk.py <property> [quick|thorough]"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF + '/rules')
import fe


class Broken(Exception):
    """the analysis lost its anchor: neither a pass nor a violation"""


class Mismatch(Exception):
    """a specification does not compile against the current declarations"""


class K:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obls = []          # (id, status, what, site, detail)
        self.units = []
        self.functions = set()
        self.sites = 0
        self.notes = []
        self._tus = {}
        self.floor = 0
        self.deadline = time.time() + (600 if tier == 'quick' else 800)

    # -- sources
    def tu(self, path, mode='host', **k):
        key = (path, mode)
        if key not in self._tus:
            self._tus[key] = fe.dump(path, mode, **k)
            self.units.append('%s [%s]' % (path, mode))
        return self._tus[key]

    def snippet(self, name, code, mode='host', **k):
        key = (name, mode)
        if key not in self._tus:
            self._tus[key] = fe.snippet(code, mode, **k)
            self.units.append('driver %s [%s]' % (name, mode))
        return self._tus[key]

    def spec(self, name, mode='host', **k):
        return self.spectext(name, open(VERIF + '/specs/' + name).read(), mode, **k)

    def spectext(self, name, code, mode='host', **k):
        try:
            return self.snippet(name, code, mode, **k)
        except fe.FrontEndError:
            # the repository side alone must compile; a specification that no longer fits its types decides nothing
            inc = [l for l in code.split('\n') if l.startswith(('#include', '#define', '#pragma', 'using namespace tflite')) and not l.endswith('\\')]
            self.snippet(name + ' (includes only)', '\n'.join(inc) + '\n', mode, **k)
            raise Mismatch('the specification %s no longer fits the types of the code' % name)

    def fn(self, tu, suffix, pred=None):
        fs = [f for f in tu.find(suffix) if pred is None or pred(f)]
        if not fs:
            raise Broken('function %s not found' % suffix)
        return fs[0]

    # -- obligations
    def ok(self, oid, what, how='holds', site=''):
        self.obls.append((oid, 'proved', what, site, how))

    def undecided(self, oid, what, why, site=''):
        self.obls.append((oid, 'undecided', what, site, why))

    def violation(self, oid, what, site='', detail=''):
        self.obls.append((oid, 'violated', what, site, detail))

    def rule(self, oid, cond, what, site='', detail=''):
        """cond: True / False / None (undecided)"""
        self.obls.append((oid, 'proved' if cond else 'undecided' if cond is None else 'violated', what, site, detail))
        return cond

    def result(self, oid, r, what):
        """r: eqv.Result"""
        self.obls.append((oid, r.status, what, r.site, (r.why + ' ' + r.detail).strip() + (' [%d models]' % r.samples if r.samples else '')))
        return r


def known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    k = K(prop, tier, seed)
    err = mism = None
    mod = importlib.import_module(prop.lower())
    try:
        mod.check(k)
    except Mismatch as e:
        mism = str(e)
        k.undecided('types', 'the specification fits the declarations of the code', mism)
    except (Broken, fe.FrontEndError) as e:
        err = '%s: %s' % (type(e).__name__, e)
    except Exception:
        err = traceback.format_exc()
    kf = known(prop)
    viol, found = [], []
    for o in k.obls:
        if o[1] == 'violated':
            hit = [x for x in kf if x[0] == o[0]]
            (found if hit else viol).append((o, hit))
    st = {}
    for o in k.obls:
        st[o[1]] = st.get(o[1], 0) + 1
    if not err and not viol and not mism and len(k.obls) < getattr(mod, 'FLOOR', 1):
        err = 'only %d obligations (expected at least %d)' % (len(k.obls), getattr(mod, 'FLOOR', 1))
    EVD = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
    os.makedirs(EVD, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or prop).strip(),
                       'units_analysed': k.units, 'functions_analysed': sorted(k.functions),
                       'obligations': len(k.obls), 'discharged': st.get('proved', 0), 'agree_not_identical': st.get('agree', 0),
                       'undecided': st.get('undecided', 0), 'known_findings': len(found),
                       'samples': [{'id': o[0], 'status': o[1], 'rule': o[2], 'site': o[3], 'detail': o[4][:400]} for o in k.obls][:120],
                       'error': err},
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    with open(EVD + '/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for o, h in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, h[0][0] + ' :: ' + h[0][1]))
    for o in k.obls:
        if o[1] in ('undecided',):
            print('undecided: %s: %s (%s) %s' % (o[0], o[2], o[3], o[4][:200]))
    if viol:
        rp = EVD + '/%s.violation.txt' % prop
        with open(rp, 'w') as f:
            for o, _ in viol:
                f.write('%s\n  rule: %s\n  site: %s\n  %s\n\n' % (o[0], o[2], o[3], o[4]))
        for o, _ in viol:
            print('%s: %s\n   at %s\n   %s' % (o[0], o[2], o[3], o[4][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        print('ANALYSIS-BROKEN %s %s' % (prop, err))
        return 2
    print('%s: %d obligations: %s; %d units, %.1fs' % (prop, len(k.obls), ', '.join('%s %d' % x for x in sorted(st.items())), len(k.units), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
