"""Planted-bug helper.
  new ID PROP FILE 'old' 'new' [FILE 'old' 'new' ...] --needs ... --breaks ... [--demo FILE] : writes seeded/ID
  try ID [PROP...] : demo on base and patched scratch copies, then the checks on the patched copy"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds the op under test against a miniature runtime and compares it with an independent definition
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I"$D/rt" -I. -I"$D/stubs" -DTFLITE_WITH_RUY "$D/demo.cc" -o "$T/demo" -Wl,--unresolved-symbols=ignore-all || exit 1
cd "$T" && ./demo
'''


def scratch(patch=None):
    d = tempfile.mkdtemp(prefix='lqseed')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % d, shell=True)
    subprocess.check_call('cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x' % d, shell=True)
    if patch:
        subprocess.check_call(['git', '-C', d, 'apply', patch])
    return d


def new(a):
    sid, prop = a[0], a[1]
    opt = {}
    rest = []
    i = 2
    while i < len(a):
        if a[i].startswith('--'):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            rest.append(a[i])
            i += 1
    d = scratch()
    for j in range(0, len(rest), 3):
        p = d + '/larq_compute_engine/' + rest[j]
        s = open(p).read()
        assert s.count(rest[j + 1]) == 1, (rest[j], rest[j + 1], s.count(rest[j + 1]))
        open(p, 'w').write(s.replace(rest[j + 1], rest[j + 2]))
    o = V + '/seeded/' + sid
    os.makedirs(o, exist_ok=True)
    df = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
    assert df
    open(o + '/patch.diff', 'w').write(df)
    json.dump({'property': prop, 'needs': opt['needs'], 'what_it_breaks': opt['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    demo = opt.get('demo')
    if demo and demo.endswith('.cc'):
        shutil.copy(demo, o + '/demo.cc')
        for sub, src in (('rt', V + '/tools/rt'), ('stubs', V + '/stubs/tfl')):
            shutil.rmtree(o + '/' + sub, True)
            shutil.copytree(src, o + '/' + sub)
        open(o + '/demo.sh', 'w').write(SH)
    elif demo:
        shutil.copy(demo, o + '/demo.sh' if demo.endswith('.sh') else o + '/' + os.path.basename(demo))
    if os.path.exists(o + '/demo.sh'):
        os.chmod(o + '/demo.sh', 0o755)
    tryit([sid, prop])


def tryit(a):
    sid = a[0]
    o = V + '/seeded/' + sid
    props = a[1:] or [json.load(open(o + '/meta.json'))['property']]
    res = []
    for p in (None, o + '/patch.diff'):
        d = scratch(p)
        if p is None and not os.path.exists('/tmp/lqkeep'):
            pass
        r = subprocess.run(['bash', o + '/demo.sh'], cwd=d, capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != 'VERIF_REPO'})
        res.append(r.returncode)
        print('demo %s -> %d %s' % ('patched' if p else 'base', r.returncode, (r.stdout + r.stderr)[-300:].strip()))
        if p:
            for q in props:
                c = subprocess.run([sys.executable, V + '/engine/chk.py', q, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/lqev'))
                print('%s %s -> %d  %s' % (sid, q, c.returncode, c.stdout[-700:]))
        shutil.rmtree(d)
    print(sid, 'OK' if res[0] == 0 and res[1] else 'DEMO-BAD', res)


{'new': new, 'try': tryit}[sys.argv[1]](sys.argv[2:])
