"""Development aid (not a check): generate single-token mutants of a source range in a scratch copy and report which of them a check
reports.   automut.py PROP FILE [start-end] [max]"""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r'(?<![<>=!+\-*/&|^-])<(?![<=])(?= )', '<='), (r'<=', '<'), (r'(?<![<>=\-])>(?![>=])(?= )', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
         (r'&&', '||'), (r'\|\|', '&&'), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'(?<= )\*(?= )', '+'), (r'(?<= )/(?= )', '*'),
         (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b3\b', '2'), (r'\b4\b', '3'), (r'height', 'width'), (r'width', 'height'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'\+\+', '--'), (r'\+=', '-='), (r'min', 'max'),
         (r'max', 'min'), (r'Same', 'Valid'), (r'kTfLiteError', 'kTfLiteOk'), (r'(?<= )%(?= )', '/'), (r'input', 'output'), (r'output', 'input'), (r'&=', '|='), (r'\|=', '&=')]


def mutants(text, a, b):
    lines = text.split('\n')
    out = []
    for i, l in enumerate(lines):
        if not (a <= i + 1 <= b):
            continue
        code = l.split('//')[0]
        if not code.strip() or code.strip().startswith(('#', '*', '/*')):
            continue
        for p, r in RULES:
            for m in re.finditer(p, code):
                n = code[:m.start()] + r + code[m.end():]
                out.append((i + 1, l.strip(), n.strip(), '\n'.join(lines[:i] + [n] + lines[i + 1:])))
        if code.strip().endswith(';') and not re.match(r'\s*(return|const|auto|int|using|std::|T |break)', code):
            out.append((i + 1, l.strip(), '(deleted)', '\n'.join(lines[:i] + [''] + lines[i + 1:])))
    return out


def main():
    props, file = sys.argv[1].split(','), sys.argv[2]
    rng = sys.argv[3] if len(sys.argv) > 3 else '1-99999'
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 60
    a, b = map(int, rng.split('-'))
    src = open('/repo/' + file).read()
    ms = mutants(src, a, b)
    random.Random(7).shuffle(ms)
    ms = ms[:mx]

    def run(m):
        d = tempfile.mkdtemp(prefix='lqmut')
        try:
            shutil.copytree('/repo/larq_compute_engine', d + '/larq_compute_engine')
            for x in ('CMakeLists.txt', 'setup.py', 'examples'):
                if os.path.exists('/repo/' + x):
                    (shutil.copytree if os.path.isdir('/repo/' + x) else shutil.copy)('/repo/' + x, d + '/' + x)
            open(d + '/' + file, 'w').write(m[3])
            res = []
            for p in props:
                r = subprocess.run([sys.executable, VERIF + '/engine/chk.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d))
                res.append((p, r.returncode, r.stdout))
            return m, res
        finally:
            shutil.rmtree(d, True)
    cnt = {}
    with ThreadPoolExecutor(8) as ex:
        for m, res in ex.map(run, ms):
            rc = 1 if any(r[1] == 1 for r in res) else max(r[1] for r in res)
            if any('does not compile' in r[2] for r in res):
                rc = 'nocompile'
            cnt[rc] = cnt.get(rc, 0) + 1
            if rc in (0, 2):
                print('rc=%s line %d:\n   %s\n   %s' % (rc, m[0], m[1], m[2]))
                for r in res:
                    for l in r[2].splitlines():
                        if 'undecided' in l or 'BROKEN' in l:
                            print('      ' + l[:300])
    print(cnt)


main()
