"""Mutation testing of the Python checks:  tools/pymut.py PROP FILE [from-to] [max]   (FILE relative to /repo)"""
import ast, os, random, subprocess, sys, tempfile, shutil
prop, file = sys.argv[1:3]
lo, hi = map(int, sys.argv[3].split('-')) if len(sys.argv) > 3 and sys.argv[3] != '-' else (1, 10 ** 6)
mx = int(sys.argv[4]) if len(sys.argv) > 4 else 60
src = open('/repo/' + file).read()
tree = ast.parse(src)
lines = src.split('\n')
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
bs = src.encode()
muts = []


def span(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def rep(n, text, why):
    if lo <= n.lineno <= hi:
        a, b = span(n)
        muts.append((n.lineno, a, b, text, why))


for n in ast.walk(tree):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
        alt = {ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}[type(n.ops[0])]
        rep(n, '(%s %s %s)' % (l, alt, r), 'cmp')
    elif isinstance(n, ast.BoolOp):
        rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(map(ast.unparse, n.values)) + ')', 'boolop')
        for i in range(len(n.values)):
            rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(ast.unparse(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand %d' % i)
    elif isinstance(n, ast.Attribute) and n.attr in ('inputs', 'outputs') and isinstance(n.ctx, ast.Load):
        rep(n, ast.unparse(n.value) + '.' + ('outputs' if n.attr == 'inputs' else 'inputs'), 'swap in/out')
    elif isinstance(n, ast.Attribute) and n.attr in ('FLOAT32', 'INT8', 'INT32', 'float32', 'int8'):
        rep(n, ast.unparse(n.value) + '.' + {'FLOAT32': 'INT8', 'INT8': 'INT32', 'INT32': 'INT8', 'float32': 'int8', 'int8': 'float32'}[n.attr], 'type')
    elif isinstance(n, ast.Constant) and type(n.value) is int:
        rep(n, str(n.value + 1), 'const')
    elif isinstance(n, ast.Constant) and type(n.value) is bool:
        rep(n, str(not n.value), 'const')
    elif isinstance(n, ast.BinOp):
        rep(n, '(%s %s %s)' % (ast.unparse(n.left), '-' if isinstance(n.op, ast.Add) else '+', ast.unparse(n.right)), 'arith')
    elif isinstance(n, ast.Call) and len(n.args) > 1 and not n.keywords:
        for i in range(len(n.args) - 1):
            a = [ast.unparse(x) for x in n.args]
            a[i], a[i + 1] = a[i + 1], a[i]
            rep(n, '%s(%s)' % (ast.unparse(n.func), ', '.join(a)), 'swap args')
    elif isinstance(n, ast.Call) and n.keywords:
        for i in range(len(n.keywords)):
            c = ast.Call(n.func, n.args, [k for j, k in enumerate(n.keywords) if j != i])
            rep(n, ast.unparse(c), 'drop keyword %s' % n.keywords[i].arg)
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Delete, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        rep(n, 'pass', 'delete')
    elif isinstance(n, ast.If):
        rep(n.test, 'not (%s)' % ast.unparse(n.test), 'negate')
random.Random(3).shuffle(muts)
muts = muts[:mx]
from concurrent.futures import ThreadPoolExecutor


def one(m):
    ln, a, b, text, why = m
    new = bs[:a] + text.encode() + bs[b:]
    try:
        compile(new, file, 'exec')
    except SyntaxError:
        return m, 'syntax'
    d = tempfile.mkdtemp(dir='/tmp/w')
    try:
        os.makedirs(d + '/r/' + os.path.dirname(file))
        subprocess.run('cp -a /repo/larq_compute_engine %s/r/' % d, shell=True)
        open(d + '/r/' + file, 'wb').write(new)
        env = dict(os.environ, VERIF_REPO=d + '/r/', VERIF_EVIDENCE=d + '/ev', PYC_BUDGET=os.environ.get('PYC_BUDGET', '8'))
        r = subprocess.run(['python3', os.path.dirname(os.path.abspath(__file__)) + '/../engine/chk.py', prop], env=env, capture_output=True, text=True)
        st = {0: 'MISSED', 1: 'caught', 2: 'broken'}.get(r.returncode, '?')
        return m, st + (' (undecided)' if 'undecided' in r.stdout and r.returncode == 0 else '')
    finally:
        shutil.rmtree(d)


cnt = {}
with ThreadPoolExecutor(2) as ex:
    for m, st in ex.map(one, muts):
        cnt[st] = cnt.get(st, 0) + 1
        if st not in ('caught', 'syntax'):
            print(st, m[0], m[4], '|', lines[m[0] - 1].strip()[:80], '=>', m[3][:80].replace('\n', ' '), flush=True)
print(cnt)
