"""The conversion pipeline against its ordering requirements: for every configuration, the sequence of passes added to the pass manager contains every stage with the right
arguments under the right conditions, in an order that respects the preconditions of each stage; each target-dependent pass hands the target on to the pattern set it selects."""
from common import *
from mlirc import *
import eqv
FLOOR = 15
ASSUMPTIONS = ['pass managers run passes in the order they are added', 'repeating a stage or a clean-up pass is harmless unless an ordering requirement says otherwise']
FILLER = ('Canonicalizer', 'CSE', 'SymbolDCE', 'Inliner', 'TFShapeInference')
B, W, N = 'before', 'between', 'none between'
PRE = [
    (B, 'RaiseCustomOps', 'TFStandardPipeline', 'fake-quant ops are wrapped before anything can fold them'), (B, 'RaiseCustomOps', 'Canonicalizer', 'fake-quant ops are wrapped before anything can fold them'),
    (B, 'TFFunctionalControlFlowToRegions', 'DecomposeResourceOps', 'resource ops are decomposed inside regions'), (B, 'DecomposeResourceOps', 'TFRegionControlFlowToFunctional', 'resource ops are decomposed inside regions'),
]
POST = [
    (B, 'PrepareCompositeFunctions', 'LowerStaticTensorList', 'composite ops are fused before tensor lists are lowered'),
    (W, 'SetBatchSize', 'TFShapeInference', 'PrepareLCE', 'the batch size is propagated before shapes are used'),
    (W, 'LegalizeTFWhile', 'Inliner', 'ReduceWhileOperands', 'loop bodies are inlined before their operands are reduced'),
    (N, 'LegalizeTFWhile', 'Canonicalizer', 'ReduceWhileOperands', 'loop operands are reduced before canonicalisation hides their dependencies'),
    (B, 'OptimizeGlobalTensors', 'FreezeGlobalTensors', 'read-only variables are known before they are frozen'),
    (W, 'OpRemoval', 'Canonicalizer', 'PrepareLCE', 'constants are folded before binary ops are recognised'), (W, 'FreezeGlobalTensors', 'Canonicalizer', 'PrepareLCE', 'constants are folded before binary ops are recognised'),
    (W, 'FreezeGlobalTensors', 'TFShapeInference', 'LayoutOptimizationPipeline', 'shapes of frozen variables are known'),
    (B, 'FreezeAssets', 'LegalizeHashTables', 'assets are frozen while still in the TF dialect'), (B, 'FreezeAssets', 'LegalizeTF', 'assets are frozen while still in the TF dialect'),
    (B, 'LayoutOptimizationPipeline', 'PrepareLCE', 'binary ops are recognised in the layout of the runtime'), (B, 'PrepareLCE', 'PrepareTF', 'binary ops are recognised before float rewrites can destroy them'),
    (B, 'PrepareTF', 'LegalizeTF', 'TF ops are prepared before legalisation'), (W, 'PrepareTF', 'Canonicalizer', 'LegalizeTF', 'clean-up after preparation'), (W, 'PrepareTF', 'TFShapeInference', 'LegalizeTF', 'shapes are fixed before legalisation'),
    (W, 'PrepareTF', 'Inliner', 'LegalizeTF', 'calls left by folded control flow are inlined'), (W, 'PrepareCompositeFunctions', 'Inliner', 'LowerStaticTensorList', 'composite functions are inlined'),
    (B, 'InitTextFileToImport', 'LegalizeTF', 'table initialisers are resolved before legalisation'), (B, 'LegalizeTF', 'AnalyzeVariables', 'variables are analysed after legalisation'),
    (B, 'AnalyzeVariables', 'LegalizeVariables', 'variables are analysed before they are legalised'), (B, 'LegalizeTF', 'LegalizeHashTables', 'tables are legalised after the other ops'),
    (W, 'LegalizeTF', 'OptimizeLCE', 'Optimize', 'fusion into binary ops happens before float fusion'), (W, 'Optimize', 'OptimizeLCE', 'BitpackWeights', 'fusion exposed by float fusion happens before packing'),
    (B, 'OptimizeLCE', 'BitpackWeights', 'packing happens after fusion'), (B, 'BitpackWeights', 'PrepareQuantize', 'packed weights are never quantised'), (B, 'OptimizeLCE', 'PrepareQuantize', 'float fusion happens before quantisation'),
    (B, 'FusePadding', 'PrepareQuantize', 'padding is fused before quantisation separates it'), (B, 'LegalizeTF', 'PrepareQuantize', 'quantisation works on the TFLite dialect'), (B, 'LegalizeTF', 'FusePadding', 'padding is fused into TFLite ops'),
    (B, 'LegalizeTF', 'OptimizeFunctionalOps', 'works on what legalisation exposes'),
    (B, 'PrepareQuantize', 'DefaultQuantParams', 'default ranges only fill what propagation left'), (B, 'PrepareQuantize', 'QuantizeDetectionPostProcess', 'post-processing absorbs the dequantise ops of propagation'),
    (B, 'DefaultQuantParams', 'QuantizeDetectionPostProcess', 'post-processing sees the default ranges'), (B, 'QuantizeDetectionPostProcess', 'Quantize', 'post-processing is handled before general quantisation'),
    (B, 'DefaultQuantParams', 'Quantize', 'default ranges are set before quantisation'),
    (W, 'PrepareQuantize', 'LCEQuantize', 'Quantize', 'int8 is absorbed into binary ops before unused pairs are removed'), (W, 'DefaultQuantParams', 'LCEQuantize', 'Quantize', 'int8 is absorbed into binary ops after the default ranges are known'),
    (B, 'Quantize', 'PostQuantize', 'clean-up follows quantisation'), (W, 'PostQuantize', 'LCEQuantize', '$PostQuantize', 'int8 exposed by the clean-up is absorbed into binary ops'),
    (B, 'PostQuantize', 'OptimizeOpOrder', 'reordering follows quantisation'), (W, 'PostQuantize', 'Optimize', 'LegalizeLCE', 'fusion exposed by quantisation'), (B, 'PostQuantize', 'PostQuantizeRemoveQDQ', 'leftovers are removed after the clean-up'),
    (B, '*Canonicalizer', 'SplitMergedOperands', 'nothing merges operands after they are split'), (B, '*CSE', 'SplitMergedOperands', 'nothing merges operands after they are split'),
    (B, '*Canonicalizer', 'UnfoldLargeSplatConstant', 'nothing folds what was unfolded'),
] + [(B, '*' + x, 'LegalizeLCE', 'translation to runtime ops comes last') for x in ('PrepareLCE', 'OptimizeLCE', 'BitpackWeights', 'FusePadding', 'LCEQuantize', 'Quantize', 'PostQuantize', 'Optimize')]


def name(q):
    q = re.sub(r'<.*', '', q).split('::')[-1]
    q = re.sub(r'^([Cc]reate)', '', q)
    return re.sub(r'(LCE)?Pass$', lambda m: m.group(1) or '', q).replace('BitpackWeightsLCE', 'BitpackWeights')


def seqof(o):
    """[(pass, args, line)] in order, or None where an added pass cannot be resolved"""
    out = []
    for (q, obj, args), e in o.calls:
        if q.endswith('Pipeline'):
            out.append((name(q), args[1:], e))
        elif args and isinstance(args[0], tuple) and args[0][0] == 'call' and re.search('(?i)create|Pass', str(args[0][1])):
            out.append((name(str(args[0][1])), args[0][2:], e))
        else:
            return None
    return out


def norm(v):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] == 'ctor' and str(v[1]).startswith(('std::initializer_list', 'std::vector')) and len(v) == 2:
            return 'empty'
        if v and v[0] in ('vec', 'vec0') and len(v) == 1:
            return 'empty'
        if v[0:1] == ('obj',) and len(v) == 3 and v[1] == ('undef',):
            return ('obj',) + tuple(sorted(norm(x) for x in v[2]))
        return tuple(norm(x) for x in v)
    return v


def resolved(v):
    return not re.search(r"'(unk|undef|fresh|ret|stm|hist)'", repr(v))


def holds(seq, c):
    """position-based requirement on a list of names; vacuous where an end is missing"""
    kind, a, why = c[0], c[1], c[-1]
    if kind == B:
        ia, ib = [i for i, x in enumerate(seq) if x == a.lstrip('*')], [i for i, x in enumerate(seq) if x == c[2]]
        return not ia or not ib or (max(ia) < min(ib) if a[0] == '*' else min(ia) < min(ib))
    x, b = c[2], c[3]
    ia = [i for i, y in enumerate(seq) if y == a]
    ib = [i for i, y in enumerate(seq) if y == b.lstrip('$')]
    if not ia or not ib:
        return True
    lo, hi = ia[0], (max(ib) if b[0] == '$' or b == 'LegalizeLCE' else min([i for i in ib if i > ia[0]] or [0]))
    inside = [y for i, y in enumerate(seq) if lo < i < hi]
    return x in inside if kind == W else x not in inside


def check(k):
    tu = k.spec('passes.cc', 'mlir')
    sequence(k, tu, 'pre', 'AddPreVariableFreezingTFToLCETFLConversionPasses', 'spec::Pre', ['pm'], PRE)
    sequence(k, tu, 'post', 'AddPostVariableFreezingTFToLCETFLConversionPasses', 'spec::Post', ['dir', 'q', 'pm', 'target'], POST)
    layout(k, tu)
    passes(k)
    import c19
    c19.driver(k)


def layout(k, tu):
    """the layout handed to the layout optimisation is the one the runtime kernels use"""
    g = [g for q, g in tu.globals.items() if q.endswith('kTFLiteDataLayout')]
    v = [x[1] for x in (g[0].get('init'),) if isinstance(x, list) and x and x[0] == 'str'] if g else []
    k.rule('layout', None if not v else v[0] == 'NHWC', 'binary ops are recognised in the layout of the runtime', LCE + 'mlir/tf_tfl_passes.cc', 'layout %s' % v)


def sequence(k, tu, oid, rn, sn, names, cons):
    rf = k.fn(tu, rn)
    site = '%s:%s' % (rf.get('file'), rf.get('line'))
    kw = dict(calls=r'^\.add\w*Pass(<|$)|::Create\w*Pipeline(<|$)')
    try:
        r = graph(k, tu, rf, names, **kw)
        s = graph(k, tu, k.fn(tu, sn), names, **kw)
    except Exception as e:
        return k.undecided(oid, 'the pass sequence', 'evaluation failed: %r' % e, site)
    sofar, why, seen, n = {}, None, set(), 0
    for t in range(80 if k.tier == 'quick' else 600):
        m = eqv.Model(k.seed * 7919 + t, [(re.compile('inference_type|inference_input'), 0, 2), (re.compile('isnull'), 0, 1), (re.compile('empty|Run|IsSigned'), 0, 1), (re.compile('mode'), 0, 2)], (0, 3))
        m.strs = ['']
        obs = []
        try:
            for g in (r, s):
                g.wset, g.cset = set(), set(g.cev)
                obs.append(seqof(eqv.interpret(g, m, False)))
                if g is s:
                    seen |= {e for _, _, e in obs[1]}
        except eqv.Reject:
            continue
        except eqv.Undecided as u:
            why = str(u)
            continue
        if obs[0] is None:
            why = 'an added pass cannot be resolved'
            continue
        n += 1
        judge(sofar, obs[0], obs[1], cons, site)
    if not n or seen != set(s.cev):
        why = why or 'not every stage of the reference was reached'
    for c in sorted(sofar):
        st, what, where, detail = sofar[c]
        if st == 'violated' or not why:
            k.obls.append(('%s.%s' % (oid, c), st, what, where, detail))
        else:
            k.undecided('%s.%s' % (oid, c), what, why, where)
    if not sofar:
        k.undecided(oid, 'the pass sequence', why or 'no configuration explored', site)


def judge(out, got, want, cons, site):
    def put(cid, ok, what, where, detail):
        st = 'proved' if ok else 'undecided' if ok is None else 'violated'
        old = out.get(cid)
        if old is None or {'violated': 2, 'undecided': 1, 'proved': 0}[st] > {'violated': 2, 'undecided': 1, 'proved': 0}[old[0]]:
            out[cid] = (st, what, where, detail)
    line = lambda e: '%s:%s' % (e.file or site.rsplit(':', 1)[0], e.line)
    gn, wn = [x[0] for x in got], [x[0] for x in want]
    for p in sorted(set(wn)):
        if p in FILLER:
            continue
        ok = gn.count(p) >= 1
        ga = [norm(a) for x, a, e in got if x == p]
        put('stage.' + p, ok, 'the stage %s is part of the pipeline' % p, site, 'missing where %s' % ', '.join(wn))
        wa = [norm(a) for x, a, e in want if x == p]
        bad = [(a, e) for (x, a, e) in got if x == p and norm(a) not in wa]
        lost = [a for a in wa if a not in ga]
        good = True if not (bad or (lost and ok)) else (False if all(resolved(norm(a)) and len(a) == len(wa[0]) for a, _ in bad) and not (lost and not bad) else None)
        if good is None and lost and not bad:
            good = False
        put('args.' + p, good, 'the stage %s gets its own settings' % p, line(bad[0][1]) if bad else site, 'settings %s, expected %s' % ([str(a)[:200] for a, _ in bad] or ga, [str(a)[:200] for a in wa]))
    every = set(wn) | set(FILLER) | {c[1].lstrip('*') for c in cons} | {c[2] for c in cons}
    for x, a, e in got:
        if x in wn or x in FILLER:
            continue
        put('cond.' + x, False if x in every else None, 'a stage runs only in the configurations it is meant for', line(e), '%s is added although the configuration does not ask for it' % x)
    for c in cons:
        what = c[-1]
        ok = holds(gn, c)
        put('order.%s.%s' % (c[0].split()[0], '.'.join(x.strip('*$') for x in c[1:-1])), ok, what + ': ' + {B: '%s before %s', W: '%s, then %s, before %s', N: 'from %s no %s until %s'}[c[0]] % tuple(x.strip('*$') for x in c[1:-1]), site,
            'sequence %s' % ', '.join(gn))


PASSES = [('prepare_tf', 'CreatePrepareLCEPass', ('prepare_target_arm', 'prepare_target_other'), (), [r'ConvertTFDilatedConvOp<.*Conv2DOp>']),
          ('optimize', 'CreateOptimizeLCEPass', ('optimize_target_arm', 'optimize_target_other'), ('optimize_bitpack_activations',), []),
          ('quantize', 'CreateLCEQuantizePass', (), ('lce_quantize',), []), ('op_removal', 'CreateOpRemovalPass', (), ('op_removal',), []),
          ('fuse_padding', 'CreateFusePaddingPass', (), ('fuse_padding',), []), ('bitpack_weights', 'CreateBitpackWeightsLCEPass', (), ('bitpackweights',), [])]


def passes(k):
    import chk
    for file, create, targets, always, classes in PASSES:
        tu = k.spectext(file, '#include "larq_compute_engine/mlir/transforms/%s.cc"\n' % file, 'mlir')
        fn, ev = pass_run(k, tu, create)
        what = 'the pass of %s applies its own pattern sets' % create
        if fn is None:
            k.undecided('pass.' + create, what, ev)
            continue
        site = '%s:%s' % (fn.get('file'), fn.get('line'))
        pops = {}
        for e in ev.events:
            if e.kind == 'call' and 'populateWithGenerated' in str(e.q):
                pops.setdefault(str(e.q).split('::')[-2], []).append(e)
        reg = registered(ev)
        run = applied(ev)
        k.rule('pass.%s.applied' % create, run, 'the pass of %s applies its patterns to its whole operation' % create, site)
        clean = all(not e.loops for es in pops.values() for e in es)
        for s in always:
            es = pops.get(s, [])
            done = any(e.guard is TRUE for e in es)
            k.rule('pass.%s.%s' % (create, s), True if done else None if not clean or (es and len(es) > 1) or unknown_calls(ev) else False, what, site, '%s is not always added' % s)
        for c in classes:
            k.rule('pass.%s.%s' % (create, 'patterns'), True if any(re.search(c, q) and g is TRUE for q, g, _ in reg) else None if unknown_calls(ev) else False, what, site, 'registered: %s' % reg)
        extra = [s for s in pops if s not in always + targets]
        k.rule('pass.%s.foreign' % create, None if extra else True, 'only the pass\'s own pattern sets are used', site, str(extra))
        if targets:
            target(k, tu, create, targets, pops, ev, site)


def unknown_calls(ev):
    return not untouched_but_populate(ev)


def untouched_but_populate(ev):
    return not any(e.kind in ('call', 'pcall') and not re.search('applyPatterns|populateWithGenerated|^\\.(add|insert)(<|$)', str(e.q)) and ('PatternSet' in str(e.obj) or any('PatternSet' in str(a) for a in e.args)) for e in ev.events)


def target(k, tu, create, names, pops, ev, site):
    """ARM patterns exactly for ARM; the factory stores the requested target in the option the pass reads"""
    what = 'the pass of %s uses the pattern set of the requested target' % create
    for want, nm in zip((0, 1), names):
        st = []
        for val in (0, 1):
            fired, und = 0, False
            for e in pops.get(nm, []):
                m = eqv.Model(k.seed, [(re.compile('target|LCETarget'), val, val)], (0, 3))
                m.strs = []
                try:
                    it = eqv.Interp(m, ev.PHI, snap=ev.snap)
                    fired += bool(m.num(it.ev(e.guard, {})))
                except (eqv.Undecided, eqv.Reject):
                    und = True
            st.append(None if und else fired > 0)
        exp = [want == 0, want == 1]
        free = not any(e.guard is not TRUE and 'target' not in str(e.guard) for es in pops.values() for e in es)
        k.rule('pass.%s.%s' % (create, nm), None if None in st or unknown_calls(ev) else True if st == exp else False if free else None, what, site, '%s is added for (ARM, XCORE) = %s' % (nm, st))
    f = opt(k, tu, create)
    ev2 = Ev(tu)
    ev2.call_top(f, args={p['name']: mk('sym', 'requested') for p in f['params']})
    made = [e for e in ev2.events if e.kind in ('make', 'new')]
    cls = tsplit(re.match(r'^<?(.*?)>?$', str(made[0].q)).group(1))[0] if made else ''
    cs = [g for g in tu.fns.values() if g.get('body') is not None and g['q'] == cls + '::' + cls.split('::')[-1] and len(g['params']) == 1 and 'LCETarget' in str(g['params'][0]['type']) and '&' not in str(g['params'][0]['type'])]
    if cs:
        e3 = Ev(tu)
        e3.call_top(cs[0], args={cs[0]['params'][0]['name']: mk('sym', 'requested')}, this=mk('sym', 'this'))
        k.rule('pass.%s.option' % create, True if any('target' in str(e.obj) + str(e.q) and any(str(a) == 'requested' for a in e.args) for e in e3.events) else None if 'requested' in str([e.args for e in e3.events]) else False,
               'the pass is created for the requested target', '%s:%s' % (cs[0].get('file'), cs[0].get('line')), 'the target is not stored in the option')
    else:
        k.undecided('pass.%s.option' % create, 'the pass is created for the requested target', 'constructor not found')
    got = [e for e in made if e.args and any('requested' in str(a) for a in e.args)]
    k.rule('pass.%s.factory' % create, True if got else False if made and all(resolved(a) for e in made for a in e.args) else None, 'the pass is created for the requested target', '%s:%s' % (f.get('file'), f.get('line')),
           'created with %s' % [[str(a) for a in e.args] for e in made])
