"""Effect analysis of Python sources. A function is abstracted, from its syntax tree alone, into a set of guarded effects

    for every e1 in C1, e2 in C2, ... satisfying the guards:   kind(target, operands)

where targets, operands, guards and collections are terms over the parameters (access paths, calls of unknown functions, folds over
collections). Helpers of the same module are expanded at their call sites, local collections are replaced by the comprehension that
fills them, early exits become guards, reads after a write to the same place carry a version. Two summaries are compared by global value
numbering and, where terms are not identical, by random interpretation of the unknown functions over small collections (Gulwani and
Necula): a difference found that way is a difference of the two terms, agreement is agreement up to the sampled interpretations."""
import ast, functools, random, time, zlib


class Reject(Exception):
    """the interpretation is outside of the domain"""


class Unsupported(Exception):
    pass


MUT = {'append', 'add', 'remove', 'pop', 'extend', 'insert', 'discard', 'clear', 'update', 'sort', 'reverse', 'setdefault', 'difference_update'}
STRUCT = {'append', 'remove', 'pop', 'extend', 'insert', 'clear', 'sort', 'reverse', 'delitem'}
PUREM = {'get', 'items', 'keys', 'values', 'as_list', 'format', 'copy', 'startswith', 'endswith', 'join', 'lower', 'upper', 'strip', 'split', 'index', 'count', 'union', 'tolist', 'decode', 'encode',
         'difference', 'intersection', 'issubset', 'isdisjoint', 'flatten', 'astype', 'any', 'all'}
PUREF = {'len', 'isinstance', 'hasattr', 'getattr', 'str', 'repr', 'int', 'float', 'bool', 'bytes', 'min', 'max', 'sum', 'abs', 'type', 'id', 'callable', 'issubclass', 'super', 'divmod', 'hash', 'iter', 'os.fspath', 'os.path.join', 'copy.deepcopy',
         'copy.copy', 'numpy.expand_dims', 'numpy.concatenate', 'numpy.asarray', 'numpy.array', 'numpy.where', 'numpy.flatnonzero'}
FRESH = {'as_list', 'tolist', 'split', 'copy'}
# parameter names after which calls of library functions are normalised, and the defaults of the optional ones
SIGNATURE = {'numpy.expand_dims': (('a', 'axis'), {}), 'numpy.concatenate': (('arrays', 'axis'), {'axis': ('c', '0')})}
QUIET = {'warnings.warn', 'print', 'logging'}
C = lambda v: ('c', repr(v))
NONE, TRUE, FALSE = C(None), C(True), C(False)


def neg(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    return c[1] if c[0] == 'not' else ('not', c)


def conj(xs):
    out = []
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        for y in x[1:] if x[0] == 'and' else (x,):
            if y not in out:
                out.append(y)
    return TRUE if not out else out[0] if len(out) == 1 else ('and',) + tuple(out)


def disj(xs):
    out = []
    for x in xs:
        if x == FALSE:
            continue
        if x == TRUE:
            return TRUE
        if x not in out:
            out.append(x)
    return FALSE if not out else out[0] if len(out) == 1 else ('or',) + tuple(out)


def ite(c, a, b):
    return a if c == TRUE else b if c == FALSE else a if a == b else ('ite', c, a, b)


def erase(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ver':
        return erase(t[1])
    if t and t[0] in ('each', 'pos'):
        return (t[0], erase(t[1]))
    return tuple(erase(x) for x in t)


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def mentions(t, p):
    return isinstance(t, tuple) and (p(t) or any(mentions(x, p) for x in t))


class Effect:
    def __init__(s, kind, name, ctx, guard, args, line, kw=()):
        s.kind, s.name, s.ctx, s.guard, s.args, s.line, s.kw = kind, name, ctx, guard, args, line, kw
        s.old = None

    def key(s):
        if s.kind == 'delitem' or s.kind == 'mut' and s.name == 'pop' and len(s.args) == 2 or s.kind == 'keep':
            return ('del', '')
        return (s.kind, s.name)

    def __repr__(s):
        return '%s.%s%s if %s for %s @%s' % (s.kind, s.name, s.args, s.guard, s.ctx, s.line)


class Module:
    def __init__(self, path, text=None):
        self.path = path
        self.tree = ast.parse(text if text is not None else open(path).read())
        self.imp, self.fns, self.consts, self.classes = {}, {}, {}, {}
        self.scan(self.tree.body, '')
        for n in ast.walk(self.tree):
            self.imports(n, self.imp)

    @staticmethod
    def imports(n, out):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = ('.' * n.level + (n.module or '')) + '.' + a.name

    def scan(self, body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.fns[pre + n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[pre + n.name] = n
                self.scan(n.body, pre + n.name + '.')
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = pre + n.targets[0].id
                self.consts[k] = None if k in self.consts else n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                k = pre + n.target.id
                self.consts[k] = None if k in self.consts else n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self.scan(n.body, pre)
                for x in getattr(n, 'orelse', []):
                    self.scan([x], pre)

    def find(self, name):
        if name in self.fns:
            return self.fns[name]
        c = [k for k in self.fns if k.split('.')[-1] == name]
        return self.fns[c[0]] if len(c) == 1 else None


class Obj:
    """a collection created by the analysed function"""
    def __init__(s, kind, ctx, guard):
        s.kind, s.entries, s.ctx, s.guard, s.dirty = kind, [], len(ctx), guard, False

    def term(s):
        return ('coll', s.kind, tuple(s.entries))


class Frame:
    def __init__(s, fn, env, parent, cls=None):
        s.fn, s.env, s.parent, s.returns, s.cls = fn, env, parent, [], cls
        s.gen = None
        s.loops = []
        s.base = 0
        s.cond0 = TRUE


class Loop:
    def __init__(s):
        s.brk, s.outs = [], []


class Ev:
    def __init__(self, mod, pure=(), opaque=()):
        self.mod, self.pure, self.opaque = mod, set(pure) | PUREF, set(opaque)
        self.effects, self.objs, self.dirty = [], [], []
        self.ctx, self.guard = (), TRUE
        self.fr = None
        self.depth = 0
        self.inlined = []
        self.ntry = 0
        self.allloops = []
        self.steps = 0

    # ---- entry
    def run(self, fn, args=None, cls=None, this=None):
        a = fn.args
        env = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = ('sym', x.arg)
        if a.vararg:
            env[a.vararg.arg] = ('sym', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('sym', '**' + a.kwarg.arg)
        env.update(args or {})
        self.call_body(fn, env, None, cls, top=True)
        return self

    def call_body(self, fn, env, parent, cls=None, top=False):
        if self.depth > 12:
            raise Unsupported('recursion')
        old, self.fr = self.fr, Frame(fn, env, parent, cls)
        self.depth += 1
        fr = self.fr
        fr.ctx0, fr.g0 = len(self.ctx), self.guard
        self.fr.loops = []
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn))
        if gen and not top:
            fr.gen = self.new('gen')
        body = fn.body if not isinstance(fn, ast.Lambda) else [ast.Return(value=fn.body, lineno=fn.lineno)]
        alive = self.block(body)
        if alive:
            fr.returns.append((self.ctx, self.guard, NONE))
        self.depth -= 1
        self.fr = old
        if top:
            for ctx, g, v in fr.returns:
                if not (gen and v == NONE):
                    self.effects.append(Effect('return', '', ctx, g, (self.mat(v),), fn.lineno))
            return None
        # result and the condition under which the call returns
        g0 = fr.g0
        ret = None
        self.guard = g0
        plain = [r for r in fr.returns if len(r[0]) == fr.ctx0]
        inner = [r for r in fr.returns if len(r[0]) > fr.ctx0]
        conds = []
        if not fr.returns:
            self.guard = FALSE
            return NONE
        if fr.gen is not None:
            fr.returns = [(c, g, NONE) for c, g, v in fr.returns]
        val = None
        if len(fr.returns) > 1 or inner:
            plain, inner = [(c, g, self.mat(v)) for c, g, v in plain], [(c, g, self.mat(v)) for c, g, v in inner]
        for ctx, g, v in reversed(plain):
            c = minus(g, g0)
            conds.append(c)
            val = v if val is None else ite(c, v, val)
        for ctx, g, v in reversed(inner):
            c, loops = minus(g, g0), ctx[fr.ctx0:]
            anyc = ('any', loops, c)
            conds.append(anyc)
            fv = v if v[0] == 'c' else ('first', loops, c, v)
            val = fv if val is None else ite(anyc, fv, val)
        if len(conds) == 1:
            self.guard = conj((g0, conds[0]))
        else:
            self.guard = conj((g0, self.cover(conds)))
        return val if fr.gen is None else fr.gen

    def cover(self, conds):
        """disjunction of the return conditions, TRUE when they are a complementary pair"""
        s = list(conds)
        changed = True
        while changed and len(s) > 1:
            changed = False
            for i in range(len(s)):
                for j in range(len(s)):
                    if i != j:
                        m = merge2(s[i], s[j])
                        if m is not None:
                            s = [x for k, x in enumerate(s) if k not in (i, j)] + [m]
                            changed = True
                            break
                if changed:
                    break
        return disj(s)

    # ---- statements; each returns False when control does not continue
    def block(self, body):
        for i, st in enumerate(body):
            self.steps += 1
            if self.steps > 20000:
                raise Unsupported('too large')
            m = getattr(self, 's_' + type(st).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(st).__name__)
            if m(st) is False:
                return False
            if self.guard == FALSE:
                return False
        return True

    def s_Pass(self, s): pass
    def s_Import(self, s): Module.imports(s, self.mod.imp)
    s_ImportFrom = s_Import
    def s_Global(self, s): raise Unsupported('global')
    def s_Nonlocal(self, s): raise Unsupported('nonlocal')

    def s_FunctionDef(self, s):
        self.fr.env[s.name] = ('fn', id(s))
        self.fnmap = getattr(self, 'fnmap', {})
        self.fnmap[id(s)] = (s, self.fr)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ex(s.value.value) if s.value.value else NONE
            if self.fr.gen is not None:
                self.mutate(self.fr.gen, 'append', [v], s.lineno)
            else:
                self.effect('yield', '', (self.mat(v),), s.lineno)
            return
        self.ex(s.value, stmt=True)

    def s_Return(self, s):
        v = self.ex(s.value) if s.value is not None else NONE
        self.fr.returns.append((self.ctx, self.guard, v))
        for lp in self.fr.loops:
            lp.brk.append(self.leaving(lp))
        return False

    def s_Raise(self, s):
        n = ''
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            t = self.ex(e)
            n = str(t[1]) if t[0] == 'g' else 'other'
        self.effect('raise', n, (), s.lineno)
        for lp in self.allloops:
            lp.brk.append(self.leaving(lp))
        return False

    def leaving(self, lp):
        """the condition of an exit, seen from an enclosing loop"""
        inner = self.ctx[lp.depth:]
        return conj((lp.bound, ('any', inner, minus(self.guard, lp.bound)))) if inner else self.guard

    def s_Assert(self, s):
        c = self.cond(s.test)
        g = self.guard
        self.guard = conj((g, neg(c)))
        self.effect('raise', 'AssertionError', (), s.lineno)
        self.guard = conj((g, c))

    def s_Break(self, s):
        self.fr.loops[-1].brk.append(self.guard)
        self.fr.loops[-1].outs.append((self.guard, dict(self.fr.env)))
        return False

    def s_Continue(self, s):
        self.fr.loops[-1].outs.append((self.guard, dict(self.fr.env)))
        return False

    def s_If(self, s):
        c = self.cond(s.test)
        if c == TRUE:
            return self.block(s.body)
        if c == FALSE:
            return self.block(s.orelse)
        g, fr = self.guard, self.fr
        env0 = dict(fr.env)
        self.guard = conj((g, c))
        a = self.block(s.body)
        enva, ga = fr.env, self.guard
        fr.env = dict(env0)
        self.guard = conj((g, neg(c)))
        b_ = self.block(s.orelse)
        envb, gb = fr.env, self.guard
        if a and b_:
            fr.env = {}
            for k in set(enva) | set(envb):
                x, y = enva.get(k, ('undef',)), envb.get(k, ('undef',))
                fr.env[k] = x if x == y else ite(c, self.mat(x), self.mat(y))
            self.join(g, c, ga, gb)
        elif a:
            fr.env, self.guard = enva, ga
        elif b_:
            fr.env, self.guard = envb, gb
        else:
            return False

    def s_Assign(self, s):
        v = self.ex(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value), s)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name) and isinstance(self.look(t.id), tuple) and self.look(t.id)[0] == 'obj':
            o = self.objs[self.look(t.id)[1]]
            if isinstance(s.op, (ast.Add, ast.BitOr)) and o.kind in ('list', 'set'):
                self.mutate(self.look(t.id), 'extend', [self.ex(s.value)], s.lineno)
                return
        old = self.ex(ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t))
        self.assign(t, self.bin(type(s.op).__name__, self.mat(old), self.mat(self.ex(s.value))), s)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Unsupported('starred target')
                self.assign(x, self.item(v, C(i)), s)
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value)
            v, old = self.mat(v), self.attr(self.mat(o), t.attr)
            un = lambda t: t[1] if t[0] == 'ver' else t
            if v[:2] == ('coll', 'list') and len(v[2]) == 1 and len(v[2][0][0]) == 1 and un(v[2][0][2]) == ('each',) + v[2][0][0][0] and \
                    un(v[2][0][0][0][0]) == un(old):
                # the same list without some of its elements
                self.effect('keep', '', (old, v), s.lineno)
                self.dirty.append(('t', erase(old)))
                return
            self.effect('setattr', t.attr, (self.mat(o), v), s.lineno)
            self.effects[-1].old = old
            self.dirty.append(('a', t.attr))
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value)
            if o[0] == 'obj':
                self.mutate(o, 'setitem', [self.ex(t.slice), v], s.lineno)
                return
            i = self.mat(self.ex(t.slice))
            o, v = self.mat(o), self.mat(v)
            if isinstance(t.value, ast.Name) and (o[0] == 'upd' or o[0] == 'copyof' or o[0] == 'call' and o[1][0] == 'attr' and o[1][2] in FRESH):
                # a list of its own
                self.fr.env[t.value.id] = ('upd', o, i, v)
                return
            if i[0] == 'cmp' and i[1] == '==' and (i[2] == o or i[3] == o):
                # masked store
                other = i[3] if i[2] == o else i[2]
                uid = len(self.ctx)
                self.ctx += ((o, uid),)
                g = self.guard
                self.guard = conj((g, ('cmp', '==') + tuple(sorted((('each', o, uid), other), key=repr))))
                self.effect('setitem', '', (o, ('pos', o, uid), v), s.lineno)
                self.ctx, self.guard = self.ctx[:-1], g
            else:
                old = self.item(o, i)
                self.effect('setitem', '', (o, i, v), s.lineno)
                self.effects[-1].old = old
            self.dirty.append(('t', erase(o)))
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ex(t.value)
                if o[0] == 'obj':
                    raise Unsupported('del of local')
                self.hazard(o, s.lineno)
                self.effect('delitem', '', (self.mat(o), self.mat(self.ex(t.slice))), s.lineno)
                self.dirty.append(('t', erase(o)))
            elif isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_With(self, s):
        n = 0
        for it in s.items:
            v = self.mat(self.ex(it.context_expr))
            self.ctx += ((('with', v), len(self.ctx)),)
            n += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ('enter', v), s)
        r = self.block(s.body)
        self.ctx = self.ctx[:len(self.ctx) - n]
        return r

    def s_Try(self, s):
        g, fr = self.guard, self.fr
        self.ntry += 1
        e = ('exc', self.ntry)
        env0 = dict(fr.env)
        n0 = len(fr.returns)
        a = self.block(s.body)
        if a and s.orelse:
            a = self.block(s.orelse)
        for i in range(n0, len(fr.returns)):
            ctx, gg, v = fr.returns[i]
            fr.returns[i] = (ctx, conj((gg, neg(e))), v)
        enva, ga = fr.env, self.guard
        outs = [(enva, neg(e), ga)] if a else []
        for h in s.handlers:
            nm = 'BaseException' if h.type is None else str(self.ex(h.type))
            fr.env = dict(env0)
            self.guard = conj((g, e, ('caught', nm)))
            if h.name:
                fr.env[h.name] = ('caughtvalue',)
            if self.block(h.body):
                outs.append((fr.env, conj((e, ('caught', nm))), self.guard))
        if not outs:
            self.guard = g
            if s.finalbody:
                self.block(s.finalbody)
            return False
        if len(outs) == 1:
            fr.env, self.guard = outs[0][0], conj((outs[0][2], outs[0][1]))
        else:
            fr.env, c, _ = outs[0]
            for env, c2, _ in outs[1:]:
                fr.env = {k: (fr.env.get(k, ('undef',)) if fr.env.get(k) == env.get(k) else ite(c, self.mat(fr.env.get(k, ('undef',))), self.mat(env.get(k, ('undef',))))) for k in set(fr.env) | set(env)}
            self.guard = g
        if s.finalbody:
            return self.block(s.finalbody)

    def s_While(self, s):
        raise Unsupported('while')

    def s_For(self, s):
        it = self.keysof(self.ex(s.iter))
        carried = sorted(assigned(s.body) & set(k for k in self.fr.env if self.fr.env.get(k, ('undef',))[0] != 'undef'))
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        carried = [c for c in carried if c not in targets and not confined(c, s.body)]
        fr = self.fr
        exits = []
        ents = [((), TRUE, x) for x in it[1:]] if it[0] == 'tuple' else self.objs[it[1]].entries if it[0] == 'obj' and self.objs[it[1]].kind in ('list', 'gen', 'tuple') else \
            it[2] if it[0] == 'coll' and it[1] in ('list', 'gen') else None
        if ents is not None and len(ents) <= 12 and all(l == () for l, g, x in ents) and not any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            for l, g, x in list(ents):
                if self.unroll(g, x, s) is False:
                    return False
            if s.orelse:
                return self.block(s.orelse)
            return
        if it[0] == 'ite' and not carried and not any(isinstance(n, (ast.Break, ast.Return, ast.Raise)) for b in s.body for n in ast.walk(b)) and not s.orelse:
            g = self.guard
            for c, x in ((it[1], it[2]), (neg(it[1]), it[3])):
                self.guard = conj((g, c))
                self.overlist(x, s, exits)
            self.guard = g
            return
        if it[0] == 'obj' and not carried and self.objs[it[1]].kind in ('list', 'set', 'gen', 'tuple') and not any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
            o = self.objs[it[1]]
            n0 = len(o.entries)
            ents = list(o.entries)
            for loops, g, e in ents:
                self.expand(loops, g, e, s, [], exits, it)
            if len(o.entries) != n0:
                raise Unsupported('collection filled while iterated')
        else:
            if it[0] == 'tuple' and not carried and not any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
                for e in it[1:]:
                    self.expand((), TRUE, e, s, [], exits, it)
            else:
                coll, el = self.source(self.mat(it))
                uid = len(self.ctx)
                self.expand(((coll, uid),), TRUE, el(uid), s, carried, exits, it)
        if s.orelse:
            return self.block(s.orelse)

    def overlist(self, it, s, exits):
        if it[0] == 'ite':
            g = self.guard
            for c, x in ((it[1], it[2]), (neg(it[1]), it[3])):
                self.guard = conj((g, c))
                self.overlist(x, s, exits)
            self.guard = g
            return
        for loops, g, e in self.elements(it):
            self.expand(loops, g, e, s, [], exits, it)

    def unroll(self, g, x, s):
        """one iteration of a loop over a collection written out in the source"""
        fr, g0 = self.fr, self.guard
        self.guard = b = conj((g0, g))
        if b == FALSE:
            self.guard = g0
            return
        lp = Loop()
        lp.depth, lp.bound = len(self.ctx), b
        fr.loops.append(lp)
        env0 = dict(fr.env)
        self.assign(s.target, x, s)
        ok = self.block(s.body)
        fr.loops.pop()
        ends = [(minus(gg, b), env) for gg, env in lp.outs] + ([(minus(self.guard, b), fr.env)] if ok else [])
        if g != TRUE:
            ends = [(conj((g, c)), env) for c, env in ends] + [(neg(g), env0)]
        if not ends:
            return False
        env = dict(ends[-1][1])
        for c, d in reversed(ends[:-1]):
            for k in set(env) | set(d):
                u, v = env.get(k, ('undef',)), d.get(k, ('undef',))
                env[k] = u if u == v else ite(c, self.mat(v), self.mat(u))
        fr.env = env
        self.guard = conj((g0, self.cover([c for c, _ in ends])))

    def source(self, it):
        """(collection, element of a loop over it)"""
        if it[0] == 'call' and it[1] == ('g', 'enumerate'):
            c, el = self.source(it[2][0])
            off = it[2][1] if len(it[2]) > 1 else dict(it[3]).get('start', C(0))
            return c, lambda u: ('tuple', self.bin('Add', ('pos', c, u), off), el(u))
        if it[0] == 'call' and it[1] == ('g', 'range') and len(it[2]) == 1 and it[2][0][0] == 'call' and it[2][0][1] == ('g', 'len'):
            c, el = self.source(it[2][0][2][0])
            return c, lambda u: ('pos', c, u)
        if it[0] == 'call' and it[1] == ('g', 'zip'):
            return it, lambda u: ('tuple',) + tuple(('item', ('each', it, u), C(i)) for i in range(len(it[2]))) if not any(a[0] == 'star' for a in it[2]) else ('each', it, u)
        if it[0] == 'copyof':
            return self.source(it[1])
        return it, lambda u: self.ver(('each', it, u))

    def expand(self, loops, g, e, s, carried, exits, it):
        fr = self.fr
        g0, ctx0 = self.guard, self.ctx
        # rename the loop variables of the entry
        m = {}
        for c, u in loops:
            nu = len(self.ctx)
            c2 = subst(c, m)
            if nu != u:
                m[('each', c, u)] = ('each', c2, nu)
                m[('pos', c, u)] = ('pos', c2, nu)
            self.ctx += ((c2, nu),)
        self.guard = conj((g0, subst(g, m)))
        bound = self.guard
        lp = Loop()
        lp.depth, lp.bound = len(self.ctx), self.guard
        outer = [(l, len(l.brk)) for l in self.allloops]
        fr.loops.append(lp)
        self.allloops.append(lp)
        live = getattr(self, 'live', [])
        self.live = live + ([erase(it)] if it[0] not in ('obj', 'copyof', 'call') else [erase(it[2][0])] if it[0] == 'call' and it[1] == ('g', 'enumerate') else [])
        init = {v: self.mat(fr.env[v]) for v in carried}
        uid = self.ctx[-1][1] if loops else None
        for v in carried:
            fr.env[v] = ('phi', uid, v)
        n_eff, n_ent = len(self.effects), [len(o.entries) for o in self.objs]
        rets = [len(f.returns) for f in self.frames()]
        env0 = dict(fr.env)
        self.assign(s.target, subst(e, m), s) if s is not None else None
        ok = self.block(s.body)
        fr.loops.pop()
        self.allloops.pop()
        self.live = live
        env1 = fr.env
        gend = self.guard
        brk = disj([minus(b, bound) for b in lp.brk])
        steps = {}
        for v in carried:
            steps[v] = self.mat(env1.get(v, ('undef',))) if ok else ('phi', uid, v)
            for gg, ee in lp.outs:
                steps[v] = ite(minus(gg, bound), self.mat(ee.get(v, ('undef',))), steps[v])
        moved = {v: t for v, t in steps.items() if t != ('phi', uid, v)}
        coll = self.ctx[-1][0] if loops else None
        sub = {}
        for v in carried:
            if v in moved:
                sub[('phi', uid, v)] = ('foldpre', coll, uid, v, tuple(sorted(moved.items())), tuple(sorted((k, init[k]) for k in moved)), brk)
            else:
                sub[('phi', uid, v)] = init[v]
        if brk != FALSE and loops:
            pre = ('prefixnone', coll, uid, brk, tuple(sorted(moved.items())), tuple(sorted((k, init[k]) for k in moved)))
        else:
            pre = TRUE
        if sub or pre != TRUE:
            for ef in self.effects[n_eff:]:
                ef.guard, ef.args, ef.ctx = conj((subst(ef.guard, sub), pre)), tuple(subst(a, sub) for a in ef.args), subst(ef.ctx, sub)
                ef.old = ef.old and subst(ef.old, sub)
            for l, n in outer:
                l.brk[n:] = [subst(b, sub) for b in l.brk[n:]]
            for i, o in enumerate(self.objs):
                k = n_ent[i] if i < len(n_ent) else 0
                o.entries[k:] = [(subst(l, sub), conj((subst(gg, sub), pre)), subst(x, sub)) for l, gg, x in o.entries[k:]]
            for f, n in zip(self.frames(), rets):
                f.returns[n:] = [(subst(c, sub), conj((subst(gg, sub), pre)), subst(x, sub)) for c, gg, x in f.returns[n:]]
        self.ctx, self.guard = ctx0, g0
        # after the loop
        out = {}
        for k in set(env0) | set(env1):
            if k in moved:
                out[k] = ('fold', coll, uid, k, tuple(sorted(moved.items())), tuple(sorted((j, init[j]) for j in moved)), brk)
            elif k in carried:
                out[k] = init[k]
            elif k in env0 and env0.get(k) == env1.get(k):
                out[k] = env0[k]
            elif k not in env0:
                out[k] = ('afterloop', k, env1[k]) if env1[k][0] != 'obj' else ('undef',)
            else:
                out[k] = env1[k]
        fr.env = out
        # exits of the function from inside the loop
        leave = [r for f, n in zip(self.frames(), rets) for r in f.returns[n:]] + [ef for ef in self.effects[n_eff:] if ef.kind == 'raise']
        if leave and loops:
            conds = []
            for r in leave:
                ctx, gg = (r[0], r[1]) if isinstance(r, tuple) else (r.ctx, r.guard)
                conds.append(('any', ctx[len(ctx0):], minus(gg, g0)))
            self.guard = conj((g0,) + tuple(neg(c) for c in conds))

    def frames(self):
        return [self.fr]

    # ---- effects
    def effect(self, kind, name, args, line, kw=()):
        if kind == 'yield' and self.effects and self.effects[-1].kind == 'yield' and self.effects[-1].ctx == self.ctx:
            p = self.effects[-1]
            m = split(p.guard, self.guard)
            if m is not None:
                p.guard, p.args = m[0], (ite(m[1], p.args[0], args[0]),)
                return
        self.effects.append(Effect(kind, name, self.ctx, self.guard, tuple(args), line, kw))

    def hazard(self, o, line):
        if erase(o) in getattr(self, 'live', []):
            self.effect('hazard', '', (self.mat(o),), line)

    def mutate(self, ot, nm, args, line):
        o = self.objs[ot[1]]
        loops, g = self.ctx[o.ctx:], minus(self.guard, o.guard)
        if nm in ('append', 'add'):
            o.entries.append((loops, g, self.mat(args[0])))
            while len(o.entries) > 1 and o.entries[-1][0] == o.entries[-2][0]:
                (l, g1, x), (_, g2, y) = o.entries[-2:]
                m = split(g1, g2)
                if m is None:
                    break
                o.entries[-2:] = [(l, m[0], ite(m[1], x, y))]
        elif nm == 'setitem':
            o.entries.append((loops, g, ('tuple', self.mat(args[0]), self.mat(args[1]))))
        elif nm in ('extend', 'update') and o.kind in ('list', 'set'):
            a = args[0]
            if a[0] == 'obj':
                for l, gg, e in self.objs[a[1]].entries:
                    o.entries.append((loops + l, conj((g, gg)), e))
            else:
                c, el = self.source(self.mat(a))
                uid = len(self.ctx)
                o.entries.append((loops + ((c, uid),), g, el(uid)))
        else:
            raise Unsupported('local ' + nm)
        return NONE

    def new(self, kind):
        self.objs.append(Obj(kind, self.ctx, self.guard))
        return ('obj', len(self.objs) - 1)

    def mat(self, v):
        """value with local collections replaced by their contents"""
        if v[0] == 'obj':
            return self.objs[v[1]].term()
        if v[0] in ('tuple', 'list', 'ite', 'call', 'item', 'attr') and mentions(v, lambda t: len(t) == 2 and t[0] == 'obj'):
            return tuple(self.mat(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(self.mat(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x for x in v)
        return v

    # ---- expressions
    def look(self, n):
        fr = self.fr
        while fr is not None:
            if n in fr.env:
                return fr.env[n]
            fr = fr.parent
        if n in self.mod.fns:
            return ('fn', id(self.mod.fns[n]))
        if n in self.mod.imp:
            return ('g', self.mod.imp[n])
        if self.mod.consts.get(n) is not None:
            v = self.mod.consts[n]
            if isinstance(v, (ast.Constant, ast.Attribute, ast.Set, ast.Tuple, ast.List, ast.BinOp, ast.UnaryOp, ast.Name)) or isinstance(v, ast.Call) and ast.unparse(v.func) in ('frozenset', 'set', 'tuple'):
                return self.ex(v)
            return ('g', n)
        return ('g', n)

    def ver(self, t):
        if not self.dirty:
            return t
        s = set()
        if t[0] == 'attr':
            eb = erase(t[1])
            for d in self.dirty:
                if d == ('a', t[2]) or d[0] == 'o' and d[1] == eb:
                    s.add(d[0] + (d[1] if d[0] == 'a' else d[2]))
        elif t[0] in ('each', 'item'):
            eb = erase(t[1])
            for d in self.dirty:
                if d[0] == 't' and d[1] == eb:
                    s.add('t')
        return ('ver', t, tuple(sorted(s))) if s else t

    def cond(self, e):
        return self.truth(self.ex(e))

    def truth(self, v):
        v = self.mat(v)
        k = v[0]
        if k in ('cmp', 'not', 'and', 'or', 'any', 'exc', 'truth', 'in'):
            return v
        if k == 'c':
            return C(bool(ast.literal_eval(v[1]))) if v[1] != 'Ellipsis' else TRUE
        if k == 'ite':
            a, b = self.truth(v[2]), self.truth(v[3])
            return disj((conj((v[1], a)), conj((neg(v[1]), b))))
        if k == 'call' and v[1] == ('g', 'isinstance'):
            return v
        if k == 'tuple':
            return C(len(v) > 1)
        return ('truth', v)

    def ex(self, e, stmt=False):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e)

    def e_Constant(self, e): return C(e.value)
    def e_Name(self, e): return self.look(e.id)

    def e_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id == 'self' and self.fr.cls and self.fr.cls + '.' + e.attr in self.mod.fns:
            f = self.mod.fns[self.fr.cls + '.' + e.attr]
            if any(isinstance(d, ast.Name) and d.id == 'property' for d in f.decorator_list):
                return self.inline(f, [self.look('self')], {}, self.fr.cls)
        return self.attr(self.ex(e.value), e.attr)

    def attr(self, o, n):
        if o[0] == 'g':
            return ('g', o[1] + '.' + n)
        if o[0] == 'ite':
            return ite(o[1], self.attr(o[2], n), self.attr(o[3], n))
        return self.ver(('attr', o, n))

    def e_Subscript(self, e):
        o = self.ex(e.value)
        return self.item(o, self.ex(e.slice))

    def e_Slice(self, e):
        return ('slice',) + tuple(self.mat(self.ex(x)) if x is not None else NONE for x in (e.lower, e.upper, e.step))

    def item(self, o, i):
        i = self.mat(i)
        if o[0] == 'tuple' and i[0] == 'c' and i[1].lstrip('-').isdigit() and -len(o) < int(i[1]) < len(o) - 1:
            return o[1:][int(i[1])]
        if o[0] == 'obj':
            ob = self.objs[o[1]]
            if ob.kind == 'list' and i[0] == 'c' and i[1].isdigit() and all(l == () and g == TRUE for l, g, _ in ob.entries) and int(i[1]) < len(ob.entries):
                return ob.entries[int(i[1])][2]
            return ('lookup', self.mat(o), i)
        if o[0] == 'ite':
            return ite(o[1], self.item(o[2], i), self.item(o[3], i))
        if i[0] == 'pos' and i[1] == self.bare(o):
            return self.ver(('each', i[1], i[2]))
        if o[0] == 'coll' and o[1] == 'dict':
            return ('lookup', o, i)
        return self.ver(('item', self.mat(o), i))

    def bare(self, o):
        return o[1] if o[0] == 'copyof' else o

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred')
        return ('tuple',) + tuple(self.ex(x) for x in e.elts)

    def e_List(self, e):
        o = self.new('list')
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.mutate(o, 'extend', [self.ex(x.value)], e.lineno)
            else:
                self.mutate(o, 'append', [self.ex(x)], e.lineno)
        return o

    def e_Set(self, e):
        o = self.new('set')
        for x in e.elts:
            self.mutate(o, 'add', [self.ex(x)], e.lineno)
        return o

    def e_Dict(self, e):
        o = self.new('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict merge')
            self.mutate(o, 'setitem', [self.ex(k), self.ex(v)], e.lineno)
        return o

    def comp(self, e, kind, elem):
        o = self.new(kind)
        ctx0, g0 = self.ctx, self.guard
        env = dict(self.fr.env)

        def rec(gens):
            if not gens:
                self.mutate(o, 'append', [elem()], e.lineno)
                return
            g = gens[0]
            it = self.keysof(self.ex(g.iter))
            for loops, gg, x in self.elements(it):
                c1, g1 = self.ctx, self.guard
                m = {}
                for c, u in loops:
                    nu = len(self.ctx)
                    c2 = subst(c, m)
                    if nu != u:
                        m[('each', c, u)], m[('pos', c, u)] = ('each', c2, nu), ('pos', c2, nu)
                    self.ctx += ((c2, nu),)
                self.guard = conj((g1, subst(gg, m)))
                self.assign(g.target, subst(x, m), e)
                for c in g.ifs:
                    self.guard = conj((self.guard, self.cond(c)))
                rec(gens[1:])
                self.ctx, self.guard = c1, g1
        rec(e.generators)
        self.fr.env = env
        self.ctx, self.guard = ctx0, g0
        return o

    def keysof(self, it):
        if it[0] == 'obj' and self.objs[it[1]].kind == 'dict':
            r = self.new('list')
            self.objs[r[1]].entries = [(l, g, x[1]) for l, g, x in self.objs[it[1]].entries]
            return r
        return it

    def elements(self, it):
        if it[0] == 'obj' and self.objs[it[1]].kind in ('list', 'set', 'gen'):
            return list(self.objs[it[1]].entries)
        if it[0] == 'tuple':
            return [((), TRUE, x) for x in it[1:]]
        if it[0] == 'coll' and it[1] in ('list', 'set', 'gen'):
            return list(it[2])
        if it[0] == 'ite':
            return [(l, conj((c, g)), x) for c, v in ((it[1], it[2]), (neg(it[1]), it[3])) for l, g, x in self.elements(v)]
        c, el = self.source(self.mat(it))
        u = len(self.ctx)
        return [(((c, u),), TRUE, el(u))]

    def e_ListComp(self, e): return self.comp(e, 'list', lambda: self.ex(e.elt))
    def e_SetComp(self, e): return self.comp(e, 'set', lambda: self.ex(e.elt))
    def e_GeneratorExp(self, e): return self.comp(e, 'gen', lambda: self.ex(e.elt))
    def e_DictComp(self, e): return self.comp(e, 'dict', lambda: ('tuple', self.mat(self.ex(e.key)), self.mat(self.ex(e.value))))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c == TRUE:
            return self.ex(e.body)
        if c == FALSE:
            return self.ex(e.orelse)
        g = self.guard
        self.guard = conj((g, c))
        a = self.mat(self.ex(e.body))
        ga, self.guard = self.guard, conj((g, neg(c)))
        b = self.mat(self.ex(e.orelse))
        self.join(g, c, ga, self.guard)
        return ite(c, a, b)

    def join(self, g, c, ga, gb):
        """the guard after two branches taken under c and not c"""
        xa, xb = minus(ga, conj((g, c))), minus(gb, conj((g, neg(c))))
        self.guard = g if xa == xb == TRUE else conj((g, disj((conj((c, xa)), conj((neg(c), xb))))))

    def e_BoolOp(self, e):
        g = self.guard
        isand = isinstance(e.op, ast.And)
        vs = []
        for x in e.values:
            vs.append(self.mat(self.ex(x)))
            self.guard = conj((self.guard, self.truth(vs[-1]) if isand else neg(self.truth(vs[-1]))))
        self.guard = g
        bs = [self.truth(v) for v in vs]
        if all(v == b or v[0] in ('cmp', 'not', 'and', 'or', 'any', 'in') for v, b in zip(vs, bs)) or True:
            if not isand and any(v != b for v, b in zip(vs[:-1], bs)):
                out = vs[-1]
                for v, b in reversed(list(zip(vs[:-1], bs))):
                    out = ite(b, v, out)
                return out
            return conj(bs) if isand else disj(bs)

    def e_UnaryOp(self, e):
        v = self.mat(self.ex(e.operand))
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v))
        if v[0] == 'c':
            x = ast.literal_eval(v[1])
            return C(-x if isinstance(e.op, ast.USub) else +x if isinstance(e.op, ast.UAdd) else ~x)
        return self.bin('Sub', C(0), v) if isinstance(e.op, ast.USub) else ('un', type(e.op).__name__, v)

    def e_BinOp(self, e):
        return self.bin(type(e.op).__name__, self.mat(self.ex(e.left)), self.mat(self.ex(e.right)))

    def bin(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = ast.literal_eval(a[1]), ast.literal_eval(b[1])
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y}[op]()
                return C(r)
            except Exception:
                pass
        if op in ('Add', 'Sub') and b == C(0):
            return a
        return ('bin', op, a, b)

    def e_Compare(self, e):
        out = []
        l = self.mat(self.ex(e.left))
        for op, r in zip(e.ops, e.comparators):
            r = self.mat(self.ex(r))
            out.append(self.cmp(type(op).__name__, l, r))
            l = r
        return conj(out)

    def cmp(self, op, a, b):
        if op in ('NotEq', 'IsNot', 'NotIn'):
            return neg(self.cmp({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op], a, b))
        if op in ('Gt', 'GtE'):
            return self.cmp({'Gt': 'Lt', 'GtE': 'LtE'}[op], b, a)
        if op in ('Eq', 'Is'):
            if a == b:
                return TRUE
            if a[0] == 'c' and b[0] == 'c':
                return C(ast.literal_eval(a[1]) == ast.literal_eval(b[1]))
            if op == 'Is':
                op = 'Eq'
            return ('cmp', '==') + tuple(sorted((a, b), key=repr))
        if op == 'In':
            if b[0] == 'coll' and all(l == () and g == TRUE for l, g, _ in b[2]) and b[1] in ('list', 'set'):
                return disj([self.cmp('Eq', a, x) for _, _, x in b[2]])
            if b[0] == 'tuple':
                return disj([self.cmp('Eq', a, x) for x in b[1:]])
            if b[0] in ('attr', 'each', 'item', 'ver', 'copyof', 'sym'):
                u = len(self.ctx)
                col, el = self.source(b)
                return ('any', ((col, u),), self.cmp('Eq', a, el(u)))
            return ('in', a, b)
        return ('cmp', {'Lt': '<', 'LtE': '<='}[op], a, b)

    def e_JoinedStr(self, e):
        return ('fmt',) + tuple(self.mat(self.ex(v.value)) for v in e.values if isinstance(v, ast.FormattedValue))

    def e_Lambda(self, e):
        self.fnmap = getattr(self, 'fnmap', {})
        self.fnmap[id(e)] = (e, self.fr)
        return ('fn', id(e))

    def e_Starred(self, e):
        return ('star', self.mat(self.ex(e.value)))

    def e_NamedExpr(self, e):
        v = self.ex(e.value)
        self.fr.env[e.target.id] = v
        return v

    def inline(self, f, args, kw, cls=None, parent=None):
        a = f.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg or len(args) > len(names):
            raise Unsupported('variadic call')
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            env[k] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env:
                env[n] = self.ex(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ex(d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise Unsupported('missing argument ' + n)
        self.inlined.append(getattr(f, 'name', 'lambda'))
        return self.call_body(f, env, parent, cls)

    def keywords(self, e):
        kw = {}
        for k in e.keywords:
            v = self.ex(k.value)
            if k.arg is not None:
                kw[k.arg] = v
                continue
            ents = self.objs[v[1]].entries if v[0] == 'obj' and self.objs[v[1]].kind == 'dict' else v[2] if v[0] == 'coll' and v[1] == 'dict' else None
            if ents is None or not all(l == () and g == TRUE and x[1][0] == 'c' for l, g, x in ents):
                raise Unsupported('unpacked keyword arguments')
            for l, g, x in ents:
                kw[ast.literal_eval(x[1][1])] = x[2]
        return kw

    def kwtuple(self, e):
        return tuple(sorted((n, self.mat(v)) for n, v in self.keywords(e).items()))

    def arguments(self, e):
        out = []
        for a in e.args:
            v = self.ex(a.value if isinstance(a, ast.Starred) else a)
            if not isinstance(a, ast.Starred):
                out.append(v)
            elif v[0] == 'tuple':
                out += v[1:]
            elif v[0] == 'obj' and self.objs[v[1]].kind == 'list' and all(l == () and g == TRUE for l, g, _ in self.objs[v[1]].entries):
                out += [x for _, _, x in self.objs[v[1]].entries]
            else:
                out.append(('star', self.mat(v)))
        return out

    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ('map', 'filter') and len(e.args) == 2 and not e.keywords and self.look(f.id) == ('g', f.id) \
                and not any(isinstance(a, ast.Starred) for a in e.args):
            # the comprehension that does the same
            x = lambda ctx: ast.Name(id='%x' + str(e.lineno), ctx=ctx)
            call = ast.Call(func=e.args[0], args=[x(ast.Load())], keywords=[])
            if f.id == 'filter' and isinstance(e.args[0], ast.Constant):
                call = x(ast.Load())
            g = ast.comprehension(target=x(ast.Store()), iter=e.args[1], ifs=[call] if f.id == 'filter' else [], is_async=0)
            g = ast.GeneratorExp(elt=call if f.id == 'map' else x(ast.Load()), generators=[g])
            return self.ex(ast.fix_missing_locations(ast.copy_location(g, e)))
        # methods of local collections
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'self' and self.fr.cls and self.fr.cls + '.' + f.attr in self.mod.fns:
                g = self.mod.fns[self.fr.cls + '.' + f.attr]
                return self.inline(g, [self.look('self')] + self.arguments(e), self.keywords(e), self.fr.cls)
            o = self.ex(f.value)
            args = self.arguments(e)
            kw = self.kwtuple(e)
            if o[0] == 'obj':
                ob = self.objs[o[1]]
                if f.attr in MUT:
                    return self.mutate(o, f.attr, args, e.lineno)
                if ob.kind == 'dict' and f.attr == 'get':
                    return ('dget', self.mat(o), self.mat(args[0]), self.mat(args[1]) if len(args) > 1 else NONE)
                if ob.kind == 'dict' and f.attr in ('items', 'keys', 'values'):
                    r = self.new('list')
                    for l, g, x in ob.entries:
                        self.objs[r[1]].entries.append((l, g, x if f.attr == 'items' else x[1] if f.attr == 'keys' else x[2]))
                    return r
                if f.attr == 'copy':
                    return ('copyof', self.mat(o))
            o = self.mat(o)
            args = [self.mat(a) for a in args]
            if o[0] == 'g':
                return self.callg(o[1] + '.' + f.attr, args, kw, e)
            if o[0] == 'coll' and o[1] == 'dict' and f.attr == 'get':
                return ('dget', o, args[0], args[1] if len(args) > 1 else NONE)
            if o[0] == 'c' and f.attr in ('format', 'join'):
                return ('fmt',) + tuple(args)
            if f.attr == 'copy' and not args:
                return ('copyof', o)
            if f.attr in MUT:
                if f.attr in STRUCT:
                    self.hazard(o, e.lineno)
                self.effect('mut', f.attr, (o,) + tuple(args), e.lineno, kw)
                self.dirty.append(('t', erase(o)))
                return ('call', ('attr', o, f.attr), tuple(args), kw)
            t = ('call', ('attr', o, f.attr), tuple(args), kw)
            if f.attr not in PUREM and f.attr not in self.pure:
                self.effect('call', f.attr, (o,) + tuple(args), e.lineno, kw)
                self.dirty.append(('o', erase(o), f.attr))
            return t
        fv = self.ex(f)
        if fv[0] == 'fn':
            args = self.arguments(e)
            kw = self.keywords(e)
            if fv[1] in getattr(self, 'fnmap', {}):
                fn, par = self.fnmap[fv[1]]
                return self.inline(fn, args, kw, None, par)
            for n, fn in self.mod.fns.items():
                if id(fn) == fv[1]:
                    if n in self.opaque:
                        return self.callg(n, [self.mat(a) for a in args], tuple(sorted((k, self.mat(v)) for k, v in kw.items())), e)
                    return self.inline(fn, args, kw)
        args = self.arguments(e)
        kw = self.kwtuple(e)
        if fv[0] == 'g':
            return self.callg(fv[1], args, kw, e)
        t = ('call', self.mat(fv), tuple(self.mat(a) for a in args), kw)
        self.effect('call', 'indirect', (self.mat(fv),) + tuple(self.mat(a) for a in args), e.lineno, kw)
        return t

    def callg(self, n, args, kw, e):
        if n == 'dict' and kw:
            r = self.new('dict')
            for l, g, x in (self.elements(args[0]) if args and args[0][0] == 'obj' and self.objs[args[0][1]].kind != 'dict' else self.objs[args[0][1]].entries if args and args[0][0] == 'obj' else []):
                self.objs[r[1]].entries.append((l, g, x))
            if args and args[0][0] != 'obj':
                raise Unsupported('copy of a mapping')
            for k, v in kw:
                self.mutate(r, 'setitem', [C(k), v], e.lineno)
            return r
        if n in SIGNATURE:
            names, defaults = SIGNATURE[n]
            if len(args) <= len(names) and not any(a[0] == 'star' for a in args):
                d = dict(defaults)
                d.update(kw)
                d.update(zip(names[1:], [self.mat(a) for a in args[1:]]))
                args, kw = args[:1], tuple(sorted(d.items()))
        if n in ('list', 'set', 'frozenset', 'tuple', 'dict', 'iter') and len(args) <= 1:
            kind = {'frozenset': 'set', 'iter': 'list', 'tuple': 'list'}.get(n, n)
            if not args:
                return self.new(kind)
            a = args[0]
            if a[0] == 'obj':
                r = self.new(kind)
                self.objs[r[1]].entries = list(self.objs[a[1]].entries)
                return r
            if a[0] == 'tuple':
                r = self.new(kind)
                for x in a[1:]:
                    self.mutate(r, 'append', [x], e.lineno)
                return r
            if kind == 'list':
                return ('copyof', self.mat(a)) if self.mat(a)[0] not in ('copyof',) else a
            r = self.new(kind)
            for l, g, x in self.elements(a):
                self.objs[r[1]].entries.append((self.ctx[self.objs[r[1]].ctx:] + l, g, x))
            return r
        if n in ('any', 'all') and len(args) == 1 and args[0][0] == 'obj':
            ents = self.objs[args[0][1]].entries
            cs = [('any', l, conj((g, self.truth(x) if n == 'any' else neg(self.truth(x))))) if l else conj((g, self.truth(x) if n == 'any' else neg(self.truth(x)))) for l, g, x in ents]
            return disj(cs) if n == 'any' else neg(disj(cs))
        if n == 'next' and args and args[0][0] == 'obj' and len(self.objs[args[0][1]].entries) == 1:
            l, g, x = self.objs[args[0][1]].entries[0]
            if len(args) > 1:
                return ite(('any', l, g), ('first', l, g, x), self.mat(args[1]))
            return ('first', l, g, x)
        args = [self.mat(a) for a in args]
        if n in ('sorted', 'reversed', 'enumerate', 'range', 'zip', 'map', 'filter'):
            if n == 'map' and args[0][0] == 'fn':
                raise Unsupported('map')
            return ('call', ('g', n), tuple(args), kw)
        t = ('call', ('g', n), tuple(args), kw)
        if n == 'assume':
            self.effect('assume', '', (self.truth(args[0]),), e.lineno)
            return NONE
        if n == 'bool':
            return self.truth(args[0]) if args else FALSE
        if n in QUIET or n.split('.')[0] in QUIET:
            self.effect('quiet', n, (), e.lineno)
            return t
        if n not in self.pure and n.split('.')[-1] not in self.pure:
            self.effect('call', n, tuple(args), e.lineno, kw)
        return t


def minus(g, g0):
    """the conjuncts of g that g0 does not contain"""
    a = g[1:] if g[0] == 'and' else () if g == TRUE else (g,)
    b = g0[1:] if g0[0] == 'and' else () if g0 == TRUE else (g0,)
    return conj([x for x in a if x not in b])


def merge2(x, y):
    """x or y when they differ by one complemented conjunct"""
    a = list(x[1:]) if x[0] == 'and' else [x]
    b = list(y[1:]) if y[0] == 'and' else [y]
    if x == TRUE or y == TRUE:
        return TRUE
    da, db = [t for t in a if t not in b], [t for t in b if t not in a]
    if len(da) == 1 and conj(db) == neg(da[0]) or len(db) == 1 and conj(da) == neg(db[0]) or len(da) == 1 and neg(da[0]) == conj(db):
        return conj([t for t in a if t in b])
    if len(da) == 1 and da[0][0] == 'not' and conj(db) == da[0][1]:
        return conj([t for t in a if t in b])
    if len(db) == 1 and db[0][0] == 'not' and conj(da) == db[0][1]:
        return conj([t for t in a if t in b])
    if not da:
        return x
    if not db:
        return y
    return None


def split(x, y):
    """(common, c) when x is common and c, y is common and not c"""
    a = list(x[1:]) if x[0] == 'and' else [] if x == TRUE else [x]
    b = list(y[1:]) if y[0] == 'and' else [] if y == TRUE else [y]
    da, db = [t for t in a if t not in b], [t for t in b if t not in a]
    if da and db and (len(da) == 1 and neg(da[0]) == conj(db) or len(db) == 1 and neg(db[0]) == conj(da)):
        return conj([t for t in a if t in b]), conj(da)
    return None


def assigned(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def confined(name, body):
    """the name is only a loop variable inside the body, not used outside of those loops"""
    def ok(n):
        if isinstance(n, ast.Name) and n.id == name:
            return False
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name:
            return ok(n.iter) and all(ok(x) for x in n.orelse)
        return all(ok(x) for x in ast.iter_child_nodes(n))
    return all(ok(b) for b in body)


def walk_own(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


# ------------------------------------------------------------------ comparison
class Model:
    """an interpretation of the unknown functions: hash-chosen values, small collections, scalars from a pool of the constants they
    are compared with"""
    def __init__(self, seed, pools, scalar):
        self.seed, self.pools, self.scalar = seed, pools, scalar
        self.chosen, self.memo, self.trace = {}, {}, None

    def h(self, *x):
        """the choice the interpretation makes for a value"""
        if self.trace is not None:
            self.trace.append(x)
        if x in self.chosen:
            return self.chosen[x]
        s = zlib.crc32(repr((self.seed,) + x).encode())
        s = zlib.crc32(b'%d' % s, s ^ 0x9e3779b9)
        self.chosen[x] = r = (s >> 3) & 0xffffff
        return r

    def dist(self, t, env, want=True):
        """the atoms that keep the condition from having the wanted value"""
        k = t[0]
        if k == 'not':
            return self.dist(t[1], env, not want)
        if k in ('and', 'or'):
            ds = [self.dist(x, env, want) for x in t[1:]]
            return sum(ds, ()) if (k == 'and') == want else shortest(ds)
        if k == 'truth' and t[1][0] == 'coll':
            ds = [self.dist(g, e, want) for l, g, x in t[1][2] for e in self.loops(l, env)]
            return (shortest(ds) if ds else ((t, env), (t, env))) if want else sum(ds, ())
        if k == 'any':
            ds = [self.dist(t[2], e, want) for e in self.loops(t[1], env)]
            return (shortest(ds) if ds else ((t, env), (t, env))) if want else sum(ds, ())
        if k == 'ite':
            return shortest([self.dist(t[1], env) + self.dist(t[2], env, want), self.dist(t[1], env, False) + self.dist(t[3], env, want)])
        return () if self.true(t, env) == want else ((t, env),)

    def steer(self, e, rng, tries, pre=()):
        """local search for an interpretation under which the effect happens"""
        def cost():
            self.memo = {}
            best = None
            for env in self.loops(e.ctx, {}):
                d = self.dist(e.guard, env)
                best = d if best is None or len(d) < len(best) else best
                if not best:
                    break
            if best is None:
                best = (None,) * 50
            return best + sum((self.dist(a.args[0], env) for a in pre for env in self.loops(a.ctx, {}) if self.true(a.guard, env)), ())
        cur = cost()
        for _ in range(tries):
            if not cur:
                break
            self.memo, self.trace = {}, []
            what = rng.choice(cur)
            if what is None:
                for env in self.loops(e.ctx, {}):
                    pass
            else:
                self.true(*what)
            keys, self.trace = self.trace, None
            if not keys:
                break
            old = dict(self.chosen)
            for _ in range(rng.choice((1, 1, 1, 2))):
                self.chosen[rng.choice(keys)] = rng.randrange(1 << 24)
            c = cost()
            if len(c) > len(cur) and rng.random() > 0.08 / (len(c) - len(cur)):
                self.chosen = old
            else:
                cur = c
        self.memo = {}
        return not cur

    def size(self, v):
        if isinstance(v, tuple) and v and v[0] == 'L':
            return len(v[1])
        if isinstance(v, (tuple, list)) and v and v[0] == 'D':
            return len(v[1])
        return self.h('n', v) % 4

    def elem(self, v, i):
        if isinstance(v, tuple) and v and v[0] == 'L':
            return v[1][i] if -len(v[1]) <= i < len(v[1]) else ('err',)
        nm = lastname(v)
        if nm is not None and self.scalar(nm + '[]'):
            return self.pick(nm + '[]', ('e', v, i))
        return ('e', v, i)

    def pick(self, nm, v):
        pool = self.pools.get(nm, ()) or ()
        pool = list(pool) + [('i', 0), ('i', 1), ('i', 2)] if self.scalar(nm) == 'int' else list(pool) + [('z', nm)]
        return pool[self.h('p', v) % len(pool)]

    def items(self, t, env):
        v = self.val(t, env)
        if isinstance(v, tuple) and v and v[0] == 'L':
            return list(v[1])
        return [self.elem(v, i) for i in range(self.size(v))]

    def loops(self, loops, env, k=0):
        """all bindings of the loop variables"""
        if k == len(loops):
            yield env
            return
        c, u = loops[k]
        if c[0] == 'with':
            e2 = dict(env)
            e2[u] = (0, 0, c)
            yield from self.loops(loops, e2, k + 1)
            return
        for i, x in enumerate(self.items(c, env)):
            e2 = dict(env)
            e2[u] = (x, i, c)
            yield from self.loops(loops, e2, k + 1)

    def coll(self, t, env):
        out = []
        for l, g, x in t[2]:
            for e in self.loops(l, env):
                if self.true(g, e):
                    out.append(self.val(x, e))
        if t[1] == 'set':
            out = sorted(set(out), key=repr)
        if t[1] == 'dict':
            return ('D', tuple((a[1][0], a[1][1]) for a in out))
        return ('L', tuple(out))

    def true(self, t, env):
        v = self.val(t, env)
        if isinstance(v, bool):
            return v
        return bool(self.h('t', v) & 1)

    def fold(self, t, env, upto=None):
        _, coll, uid, name, steps, inits, brk = t
        st = {k: self.val(v, env) for k, v in inits}
        for i, x in enumerate(self.items(coll, env)):
            if upto is not None and i >= upto:
                break
            e = dict(env)
            e[uid] = (x, i, coll)
            for k, v in st.items():
                e[('phi', uid, k)] = v
            new = {k: self.val(v, e) for k, v in steps}
            stop = brk != FALSE and self.true(brk, e)
            # a path that breaks has made its assignments before leaving
            st = new
            if stop:
                break
        return st[name]

    def eq(self, a, b):
        if a == b:
            return True
        if known(a) and known(b) or rigid(a) and rigid(b):
            return False
        return self.h('eq', *sorted((repr(a), repr(b)))) % 3 == 0

    def num(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'i':
            return v[1]
        if isinstance(v, bool):
            return int(v)
        return None

    def place(self, t, env):
        """the location a term reads"""
        if t[0] == 'attr':
            return ('a', self.val(t[1], env), t[2])
        if t[0] == 'item':
            i = self.val(t[2], env)
            n = self.num(i)
            return ('e', self.val(t[1], env), n) if n is not None else ('it', self.val(t[1], env), i)
        if t[0] == 'each':
            return ('e', self.val(t[1], env), env[t[2]][1])
        return self.val(t, env)

    def val(self, t, env):
        if t[0] in ('c', 'sym', 'g', 'each', 'pos', 'phi'):
            return self.val1(t, env)
        f = free(t)
        key = (id(t), tuple([(env.get(u) if not isinstance(u, int) else env[u][:2]) if u in env else None for u in f]))
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self.val1(t, env)
        return r

    def val1(self, t, env):
        k = t[0]
        if k == 'c':
            return literal(t[1])
        if k in ('sym', 'g', 'enter', 'undef', 'caughtvalue', 'fn'):
            if k == 'enter':
                return ('enter', self.val(t[1], env))
            if k == 'sym' and self.scalar(t[1]):
                return self.pick(t[1], ('s', t[1]))
            return (k, t[1] if k != 'fn' and len(t) > 1 else '')
        if k == 'exc':
            return bool(self.h('exc', t[1]) & 1)
        if k == 'caught':
            return True if 'Exception' in t[1] else bool(self.h('caught', t[1]) & 1)
        if k == 'ver':
            v = self.place(t[1], env)
            nm = lastname(v)
            r = ('ver', v, t[2])
            if nm is not None and self.scalar(nm):
                return self.pick(nm, r)
            return r
        if k == 'each':
            return env[t[2]][0]
        if k == 'pos':
            return ('i', env[t[2]][1])
        if k == 'phi':
            return env.get(t, ('phi',))
        if k == 'fold':
            return self.fold(t, env)
        if k == 'foldpre':
            return self.fold(t, env, upto=env[t[2]][1])
        if k == 'prefixnone':
            _, coll, uid, brk, steps, inits = t
            n = env[uid][1]
            st = {kk: self.val(v, env) for kk, v in inits}
            for i, x in enumerate(self.items(coll, env)):
                if i >= n:
                    break
                e = dict(env)
                e[uid] = (x, i, coll)
                for kk, v in st.items():
                    e[('phi', uid, kk)] = v
                if self.true(brk, e):
                    return False
                st = {kk: self.val(v, e) for kk, v in steps}
            return True
        if k == 'attr':
            b = self.val(t[1], env)
            r = ('a', b, t[2])
            if self.scalar(t[2]):
                return self.pick(t[2], r)
            return r
        if k in ('item', 'lookup'):
            b, i = self.val(t[1], env), self.val(t[2], env)
            n = self.num(i)
            if isinstance(b, tuple) and b and b[0] == 'D':
                for kk, v in reversed(b[1]):
                    if kk == i:
                        return v
                return ('err',)
            if isinstance(b, tuple) and b and b[0] == 'L' and n is not None:
                return self.elem(b, n)
            if isinstance(b, tuple) and b and b[0] == 'L' and isinstance(i, tuple) and i[0] == 'sl':
                ix = [None if x == ('k', 'None') else self.num(x) for x in i[1:]]
                if all(x is not None or y == ('k', 'None') for x, y in zip(ix, i[1:])):
                    return ('L', b[1][slice(*ix)])
            nm = lastname(b)
            if n is not None and nm is not None and self.scalar(nm + '[]'):
                return self.pick(nm + '[]', ('e', b, n))
            if n is not None:
                return ('e', b, n)
            return ('it', b, i)
        if k == 'dget':
            b, i = self.val(t[1], env), self.val(t[2], env)
            if isinstance(b, tuple) and b and b[0] == 'D':
                for kk, v in reversed(b[1]):
                    if kk == i:
                        return v
                return self.val(t[3], env)
            return ('dg', b, i)
        if k == 'coll':
            return self.coll(t, env)
        if k == 'copyof':
            return self.val(t[1], env)
        if k == 'tuple':
            return ('L', tuple(self.val(x, env) for x in t[1:]))
        if k == 'ite':
            return self.val(t[2] if self.true(t[1], env) else t[3], env)
        if k == 'not':
            return not self.true(t[1], env)
        if k == 'and':
            return all(self.true(x, env) for x in t[1:])
        if k == 'or':
            return any(self.true(x, env) for x in t[1:])
        if k == 'any':
            return any(self.true(t[2], e) for e in self.loops(t[1], env))
        if k == 'first':
            for e in self.loops(t[1], env):
                if self.true(t[2], e):
                    return self.val(t[3], e)
            return ('err',)
        if k == 'afterloop':
            return ('al', t[1])
        if k == 'cmp':
            a, b = self.val(t[2], env), self.val(t[3], env)
            if t[1] == '==':
                return self.eq(a, b)
            x, y = self.num(a), self.num(b)
            if x is not None and y is not None:
                return x < y if t[1] == '<' else x <= y
            return bool(self.h(t[1], a, b) & 1)
        if k == 'in':
            a, b = self.val(t[1], env), self.val(t[2], env)
            if isinstance(b, tuple) and b and b[0] == 'D':
                return any(x[0] == a for x in b[1])
            return any(self.eq(self.elem(b, i), a) for i in range(self.size(b)))
        if k == 'truth':
            v = self.val(t[1], env)
            if isinstance(v, bool):
                return v
            if isinstance(v, tuple) and v and v[0] in ('L', 'D'):
                return len(v[1]) > 0
            if v == ('k', 'None'):
                return False
            n = self.num(v)
            if n is not None:
                return n != 0
            nm = lastname(v)
            if nm is not None and self.pools.get('#seq') and nm in self.pools['#seq']:
                return self.size(v) > 0
            return bool(self.h('t', v) & 1)
        if k == 'bin':
            a, b = self.val(t[2], env), self.val(t[3], env)
            x, y = self.num(a), self.num(b)
            if x is not None and y is not None:
                f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y if y else 0, 'Mod': lambda: x % y if y else 0}.get(t[1])
                if f:
                    return ('i', f())
            if t[1] == 'Add' and isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('L',):
                return ('L', a[1] + b[1])
            return ('b', t[1], a, b)
        if k == 'slice':
            return ('sl',) + tuple(self.val(x, env) for x in t[1:])
        if k == 'call':
            f = t[1]
            args = tuple(self.val(a, env) for a in t[2])
            kw = tuple((n, self.val(v, env)) for n, v in t[3])
            if f[0] == 'g':
                n = f[1]
                if n == 'len' and len(args) == 1:
                    return ('i', self.size(args[0]))
                if n in ('min', 'max', 'sum') and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'L':
                    xs = [self.num(x) for x in args[0][1]]
                    if xs and all(x is not None for x in xs):
                        return ('i', {'min': min, 'max': max, 'sum': sum}[n](xs))
                    return ('err',)
                if n in ('sorted', 'reversed') and len(args) == 1:
                    xs = [self.elem(args[0], i) for i in range(self.size(args[0]))]
                    if n == 'reversed':
                        return ('L', tuple(xs[::-1]))
                    if all(self.num(x) is not None for x in xs):
                        xs.sort(key=self.num)
                        if dict(kw).get('reverse') is True:
                            xs.reverse()
                        return ('L', tuple(xs))
                if n == 'range' and all(self.num(a) is not None for a in args):
                    return ('L', tuple(('i', x) for x in range(*[min(12, self.num(a)) for a in args])))
                if n == 'enumerate' and len(args) == 1:
                    return ('L', tuple(('L', (('i', i), self.elem(args[0], i))) for i in range(self.size(args[0]))))
                if n == 'zip' and not any(isinstance(a, tuple) and a and a[0] == 'star' for a in args):
                    return ('L', tuple(('L', tuple(self.elem(a, i) for a in args)) for i in range(min(self.size(a) for a in args)))) if args else ('L', ())
                if n == 'isinstance' and len(args) == 2:
                    return bool(self.h('isinst', args) & 1)
                return ('call', n, args, kw)
            if f[0] == 'attr':
                r = ('call', self.val(f[1], env), f[2], args, kw)
                if f[2] in self.pools.get('#seq', ()):
                    pool = list(self.pools.get(f[2] + '[]', ())) + [('k', 'None'), ('i', 1), ('i', 2), ('i', 3)]
                    return ('L', tuple(pool[self.h('q', r, i) % len(pool)] for i in range(self.size(r))))
                return r
            return ('call', self.val(f, env), args, kw)
        if k == 'upd':
            b, i, v = (self.val(x, env) for x in t[1:])
            n = self.num(i)
            if isinstance(b, tuple) and b and b[0] == 'L' and n is not None:
                if not -len(b[1]) <= n < len(b[1]):
                    return ('err',)
                xs = list(b[1])
                xs[n] = v
                return ('L', tuple(xs))
            return ('upd', b, i, v)
        if k == 'star':
            return ('star', self.val(t[1], env))
        if k == 'fmt':
            return ('fmt',)
        if k in ('un', 'list'):
            return (k,) + tuple(self.val(x, env) if isinstance(x, tuple) else x for x in t[1:])
        raise Unsupported('term ' + k)


@functools.lru_cache(None)
def literal(t):
    try:
        x = ast.literal_eval(t)
    except Exception:
        return ('k', t)
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return ('i', x)
    return ('k', t)


def share(evs):
    """equal terms become one object"""
    table, seen = {}, {}

    def rec(t):
        if not isinstance(t, tuple):
            return t
        k = id(t)
        if k not in seen:
            n = tuple([rec(x) for x in t])
            seen[k] = (table.setdefault(n, n), t)
        return seen[k][0]
    for ev in evs:
        for e in ev.effects:
            e.ctx, e.guard, e.args, e.kw, e.old = rec(e.ctx), rec(e.guard), rec(e.args), rec(e.kw), rec(e.old)


CHOICE = random.Random(7)


def shortest(ds):
    n = min(len(d) for d in ds)
    return CHOICE.choice([d for d in ds if len(d) == n])


FREE = {}


def free(t):
    """the loop variables a term depends on"""
    r = FREE.get(id(t))
    if r is None:
        r = FREE[id(t)] = (tuple(sorted(free1(t), key=repr)), t)
    return r[0]


def bind(loops, parts):
    s = set(x for p in parts for x in free(p))
    for c, u in reversed(loops):
        s = {x for x in s if x != u and not (isinstance(x, tuple) and x[1] == u)} | set(free(c) if c[0] != 'with' else free(c[1]))
    return s


def free1(t):
    k = t[0] if t else None
    if k in ('each', 'pos'):
        return {t[2]} | set(free(t[1]))
    if k == 'phi':
        return {t}
    if k == 'coll':
        return set().union(*[bind(l, (g, x)) for l, g, x in t[2]]) if t[2] else set()
    if k == 'any':
        return bind(t[1], (t[2],))
    if k == 'first':
        return bind(t[1], (t[2], t[3]))
    if k in ('fold', 'foldpre', 'prefixnone'):
        if k == 'prefixnone':
            _, coll, uid, brk, steps, inits = t
        else:
            _, coll, uid, name, steps, inits, brk = t
        s = bind(((coll, uid),), [v for _, v in steps] + [brk])
        for _, v in inits:
            s |= set(free(v))
        return s | ({uid} if k != 'fold' else set())
    s = set()
    for x in t:
        if isinstance(x, tuple):
            s |= set(free(x))
    return s


def known(v):
    return isinstance(v, bool) or isinstance(v, tuple) and v and v[0] in ('i', 'k', 'z', 'g', 'D')


def rigid(v):
    return isinstance(v, tuple) and v and v[0] in ('i', 'k', 'z', 'g', 'e', 'L', 'D')


def lastname(v):
    if isinstance(v, tuple) and len(v) > 1:
        if v[0] == 'a':
            return v[2]
        if v[0] in ('s', 'sym') and isinstance(v[1], str):
            return v[1]
        if v[0] == 'e':
            n = lastname(v[1])
            return n + '[]' if n else None
        if v[0] == 'ver':
            return lastname(v[1])
    return None


def tname(t):
    if t[0] == 'ver':
        return tname(t[1])
    if t[0] == 'attr':
        return t[2]
    if t[0] == 'sym':
        return t[1]
    if t[0] in ('each', 'item'):
        n = tname(t[1])
        return n + '[]' if n else None
    return None


def tnames(t):
    if t[0] == 'ite':
        return tnames(t[2]) + tnames(t[3])
    n = tname(t)
    return [n] if n else []


def pools(*evs):
    out = {}

    seen = set()

    def walk(t):
        if not isinstance(t, tuple) or id(t) in seen:
            return
        seen.add(id(t))
        if t and t[0] == 'cmp' and t[1] == '==' and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] in ('c', 'g'):
                    for n in tnames(a):
                        m = Model(0, {}, lambda n: None)
                        out.setdefault(n, set()).add(m.val(b, {}))
        for x in t:
            walk(x)
    for ev in evs:
        for e in ev.effects:
            walk(e.guard), walk(e.args), walk(e.ctx)
    return {k: sorted(v, key=repr) for k, v in out.items()}


ORDERED = {'pop', 'del', 'insert', 'yield'}


def deleted(e, m, a, env):
    """the positions a statement deletes, last first"""
    n, i = m.size(a[0]), a[1]
    if e.kind == 'keep':
        loops, g, _ = e.args[1][2][0]
        kept = {ev[loops[0][1]][1] for ev in m.loops(loops, env) if m.true(g, ev)}
        return [('i', j) for j in reversed(range(n)) if j not in kept]
    if isinstance(i, tuple) and i[0] == 'sl' and i[3] == ('k', 'None'):
        lo, hi = (None if x == ('k', 'None') else m.num(x) for x in i[1:3])
        if all(x is not None or y == ('k', 'None') for x, y in zip((lo, hi), i[1:3])):
            return [('i', j) for j in reversed(range(n)[slice(lo, hi)])]
    x = m.num(i)
    if x is not None and not 0 <= x < n:
        raise Reject()
    return [i]


def instances(ev, m, only, fired=None, skip=None):
    out = {}
    for e in ev.effects:
        if not only(e):
            continue
        for env in m.loops(e.ctx, {}):
            if not m.true(e.guard, env):
                continue
            if fired is not None:
                fired[(e.kind, e.name, e.line)] = fired.get((e.kind, e.name, e.line), 0) + 1
            w = tuple(m.val(c[1], env) for c, u in e.ctx if c[0] == 'with')
            if e.old is not None and m.val(e.old, env) == m.val(e.args[-1], env):
                continue        # writes back what is there
            if skip and e.args and skip(e, m.val(e.args[-1], env)):
                continue
            if e.key() == ('del', ''):
                a = tuple(m.val(x, env) for x in e.args)
                out.setdefault(e.key(), []).extend((repr((w, a[0], j)), e) for j in deleted(e, m, a, env))
                continue
            out.setdefault(e.key(), []).append((repr((w, tuple(m.val(a, env) for a in e.args), tuple((n, m.val(v, env)) for n, v in e.kw))), e))
    return out


def guarded(f):
    try:
        return f()
    except RecursionError:
        raise Unsupported('deep term')


def versions(ev, k):
    """the places that effects of a kind read after they have been written"""
    c = ev.__dict__.setdefault('vcache', {})
    if k not in c:
        out, seen = set(), set()

        def walk(t):
            if isinstance(t, tuple) and id(t) not in seen:
                seen.add(id(t))
                if t and t[0] == 'ver':
                    out.add((erase_uid(erase(t[1])), t[2]))
                for x in t:
                    walk(x)
        for e in ev.effects:
            if e.key() == k:
                walk(e.ctx), walk(e.guard), walk(e.args)
        c[k] = out
    return c[k]


def erase_uid(t):
    if t[0] == 'attr':
        return t[2]
    return t[0]


def compare(r, s, seed=1, samples=200, budget=0, scalar=lambda n: None, only=lambda e: True, seq=(), skip=None):
    """None when not separated, otherwise (text, line); raises Unsupported when the summaries have different vocabularies"""
    keep = lambda e: e.kind not in ('quiet', 'assume') and only(e)
    pre = [e for e in s.effects if e.kind == 'assume']
    kr, ks = {e.key() for e in r.effects if keep(e)}, {e.key() for e in s.effects if keep(e)}
    canon = lambda ev: sorted(repr((e.key(), e.ctx, e.guard, e.args, e.kw)) for e in ev.effects if keep(e))
    if canon(r) == canon(s):
        return 'identical', None
    if 'hazard' in {k[0] for k in kr} - {k[0] for k in ks}:
        e = [e for e in r.effects if e.kind == 'hazard'][0]
        return 'differ', ('the collection %s is changed while it is iterated' % show(e.args[0]), e.line)
    miss, extra = ks - kr, kr - ks
    if miss and extra:
        raise Unsupported('different vocabulary: %s instead of %s' % (sorted(extra), sorted(miss)))
    share([r, s])
    ps = pools(r, s)
    ps['#seq'] = set(seq)
    fired = {}
    goals = [e for e in list(r.effects) + list(s.effects) if keep(e)]
    rng = random.Random(seed)
    CHOICE.seed(seed)
    todo = []
    tainted = None
    t0 = time.time()
    for i in range(samples):
        if budget and time.time() - t0 > budget:
            break
        if todo:
            m = todo.pop()
        else:
            m = Model(seed * 100003 + i, ps, scalar)
            if i % 4:
                missing = [e for e in goals if (e.kind, e.name, e.line) not in fired] if i % 2 else goals
                goal = rng.choice(missing or goals)
                if guarded(lambda: m.steer(goal, rng, 300, pre)):
                    for _ in range(3):
                        n = Model(m.seed, ps, scalar)
                        n.chosen = dict(m.chosen)
                        for _ in range(rng.choice((1, 2, 4)) if n.chosen else 0):
                            n.chosen[rng.choice(list(n.chosen))] = rng.randrange(1 << 24)
                        todo.append(n)
        if not guarded(lambda: all(m.true(e.args[0], env) for e in pre for env in m.loops(e.ctx, {}) if m.true(e.guard, env))):
            continue
        try:
            a, b = guarded(lambda: (instances(r, m, keep, fired, skip), instances(s, m, keep, None, skip)))
        except Reject:
            continue
        for k in sorted(set(a) | set(b)):
            x, y = [q[0] for q in a.get(k, [])], [q[0] for q in b.get(k, [])]
            if k[1] not in ORDERED and k[0] not in ORDERED:
                x, y = sorted(x), sorted(y)
            if k[0] == 'call' or k[0] == 'setattr':
                x, y = sorted(set(x)), sorted(set(y))
            if x != y and k in kr and versions(r, k) != versions(s, k):
                tainted = tainted or k
            elif x != y:
                ex = [q for q in a.get(k, []) if q[0] not in y] or a.get(k, [])
                ey = [q for q in b.get(k, []) if q[0] not in x] or b.get(k, [])
                nm = '.'.join(z for z in k if z)
                if not ex:
                    cand = [e for e in r.effects if e.key() == k]
                    line = cand[0].line if cand else None
                    return 'differ', ('%s is not done in a situation where it has to be: %s' % (nm, shorten(ey[0][0])), line)
                if not ey or len(x) > len(y):
                    return 'differ', ('%s is done in a situation where it must not be: %s' % (nm, shorten(ex[0][0])), ex[0][1].line)
                return 'differ', ('%s: %s instead of %s' % (nm, shorten(ex[0][0]), shorten(ey[0][0])), ex[0][1].line)
    if tainted:
        raise Unsupported('%s depends on values read at different points of the modification' % '.'.join(z for z in tainted if z))
    return 'agree', (fired, [e for e in r.effects if keep(e) and (e.kind, e.name, e.line) not in fired])


LIM = 300


def shorten(s):
    return s if len(s) < LIM else s[:LIM] + "..."


def show(t):
    if t[0] in ('sym', 'g'):
        return str(t[1])
    if t[0] == 'attr':
        return show(t[1]) + '.' + t[2]
    if t[0] == 'ver':
        return show(t[1])
    if t[0] == 'item':
        return show(t[1]) + '[%s]' % show(t[2])
    if t[0] == 'c':
        return t[1]
    if t[0] == 'each':
        return 'each(%s)' % show(t[1])
    return t[0]
