"""The counting scripts (C37): sums as terms, computed from the syntax trees of scripts/evaluate.py and scripts/find.py.

A value is a nested tuple.  Loops become sums: a name whose next value is its old one plus a term that does not
depend on it ends as its initial value plus the sum of that term over the sequence the loop runs through.
"""
import ast, os
from lib import Undecided, Violation
import dump

DEPTH = 8


class Unknown(Exception):
    pass


def K(v):
    return ('k', v, 'bool') if isinstance(v, bool) else ('k', v)


ZERO, ONE = K(0), K(1)


def key(t):
    return repr(t)


def num(t):
    return t[0] == 'k' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def add(*ts):
    c, out = 0, {}
    order = []
    for t in ts:
        for x in (t[1:] if t[0] == '+' else (t,)):
            if num(x):
                c += x[1]
                continue
            f, y = (x[1], x[2]) if x[0] == '*k' else (1, x)
            k = key(y)
            if k not in out:
                order.append(k)
                out[k] = [0, y]
            out[k][0] += f
    xs = [(y if f == 1 else ('*k', f, y)) for f, y in (out[k] for k in sorted(out)) if f != 0]
    if c or not xs:
        xs.append(K(c))
    return xs[0] if len(xs) == 1 else ('+',) + tuple(xs)


def scale(f, t):
    if f == 0:
        return ZERO
    if num(t):
        return K(f * t[1])
    if t[0] == '+':
        return add(*[scale(f, x) for x in t[1:]])
    if t[0] == '*k':
        return scale(f * t[1], t[2]) if f * t[1] != t[1] else t
    return t if f == 1 else ('*k', f, t)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if num(x):
            return scale(x[1], y)
        if x[0] == '+':
            return add(*[mul(t, y) for t in x[1:]])
        if x[0] == '*k':
            return scale(x[1], mul(x[2], y))
    xs = [t for u in (a, b) for t in (u[1:] if u[0] == 'mul' else (u,))]
    return ('mul',) + tuple(sorted(xs, key=key))


def neg(c):
    if c[0] == 'k':
        return K(not c[1])
    return c[1] if c[0] == 'not' else ('not', c)


def ite(c, a, b):
    if c[0] == 'k':
        return a if c[1] else b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    a, b = assume(a, c, True), assume(b, c, False)
    if a == b:
        return a
    if a == K(True) and b == K(False):
        return c
    if a == K(False) and b == K(True):
        return neg(c)
    if b == ZERO and count(a) and (c == a or c == ('lt', ZERO, a)):
        return a
    if b == ZERO and c[0] == 'in' and a == ('meth', 'count', c[2], c[1]):
        return a
    return ('ite', c, a, b)


def assume(t, c, v):
    if t == c:
        return K(v)
    if t[0] == 'ite' and t[1] == c:
        return assume(t[2] if v else t[3], c, v)
    if t[0] in ('ite', '+', 'and', 'not', '*k'):
        return rebuild(t, lambda x: assume(x, c, v))
    return t


def and_(a, b):
    if a[0] == 'k':
        return b if a[1] else K(False)
    if b[0] == 'k':
        return a if b[1] else K(False)
    xs = {key(x): x for t in (a, b) for x in (t[1:] if t[0] == 'and' else (t,))}
    for x in xs.values():
        if key(neg(x)) in xs:
            return K(False)
    ys = [xs[k] for k in sorted(xs)]
    return ys[0] if len(ys) == 1 else ('and',) + tuple(ys)


def rebuild(t, f):
    if not isinstance(t, tuple):
        return t
    o = t[0]
    if o == '+':
        return add(*[f(x) for x in t[1:]])
    if o == '*k':
        return scale(t[1], f(t[2]))
    if o == 'ite':
        return ite(f(t[1]), f(t[2]), f(t[3]))
    if o == 'and':
        r = K(True)
        for x in t[1:]:
            r = and_(r, f(x))
        return r
    if o == 'not':
        return neg(f(t[1]))
    if o == 'sum':
        return sum_(t[1], f(t[2]), f(t[3]))
    if o == 'len':
        return length(f(t[1]))
    if o == 'mul':
        r = ONE
        for x in t[1:]:
            r = mul(r, f(x))
        return r
    if o == 'dict':
        return ('dict', tuple((k, f(v)) for k, v in t[1]))
    return (o,) + tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])


def sub(t, old, new):
    if t == old:
        return new
    if not isinstance(t, tuple):
        return t
    if t[0] in ('k', 'v'):
        return t
    return rebuild(t, lambda x: sub(x, old, new))


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def canon(v, seq, term):
    """bound names by nesting depth, so that equal sums are equal terms"""
    d = 1 + max(depth(seq), depth(term))
    w = ('v', f'b{d}')
    return w, sub(term, v, w)


def depth(t):
    if not isinstance(t, tuple):
        return 0
    if t[0] in ('sum', 'map', 'filt'):
        return int(t[1][1][1:]) if t[1][1].startswith('b') else 0
    return max([depth(x) for x in t if isinstance(x, tuple)] or [0])


def sum_(v, seq, term):
    if term == ZERO:
        return ZERO
    if term[0] in ('lt', 'in', 'eq', 'is', 'not', 'and'):
        term = ite(term, ONE, ZERO)
    if seq[0] == 'map':
        return sum_(seq[1], seq[2], sub(term, v, seq[3]))
    if seq[0] == 'filt':
        return sum_(seq[1], seq[2], ite(seq[3], sub(term, v, seq[1]), ZERO))
    if seq[0] == 'list':
        return add(*[sub(term, v, x) for x in seq[1:]])
    if term[0] == '+':
        return add(*[sum_(v, seq, x) for x in term[1:]])
    if term[0] == '*k':
        return scale(term[1], sum_(v, seq, term[2]))
    if not mentions(term, v):
        if num(term):
            return scale(term[1], length(seq))
    # a sum over an inner sequence is a sum over the concatenation: keep it nested
    w, term = canon(v, seq, term)
    return ('sum', w, seq, term)


def map_(v, seq, elem):
    if elem == v:
        return seq
    if seq[0] == 'map':
        return map_(seq[1], seq[2], sub(elem, v, seq[3]))
    if seq[0] == 'list':
        return ('list',) + tuple(sub(elem, v, x) for x in seq[1:])
    w, elem = canon(v, seq, elem)
    return ('map', w, seq, elem)


def filt(v, seq, c):
    if c[0] == 'k':
        return seq if c[1] else ('list',)
    w, c = canon(v, seq, c)
    return ('filt', w, seq, c)


def length(s):
    if s[0] == 'map':
        return length(s[2])
    if s[0] == 'filt':
        return sum_(s[1], s[2], ite(s[3], ONE, ZERO))
    if s[0] == 'list':
        return K(len(s) - 1)
    if s[0] == 'k' and isinstance(s[1], str):
        return K(len(s[1]))
    if s[0] == 'meth' and s[1] == 'join' and s[2] in (K(''), K(b'')) and len(s) == 4:
        v = ('v', 'joined')
        return sum_(v, s[3], length(v))
    return ('len', s)


class Sym:
    """symbolic execution of a script's statements"""

    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path, encoding='utf-8').read())
        self.n = 0
        self.events = []       # (kind, guard, loops, data, line)
        self.loops = []
        self.fns = {}
        self.deep = 0
        self.base = 0
        self.lams = {}
        self.grow = set()

    def where(self, n):
        return f'{os.path.relpath(self.path, dump.REPO)}:{getattr(n, "lineno", 0)}'

    def fresh(self, n='x'):
        self.n += 1
        return ('v', f'{n}#{self.n}')

    # --- statements; env: name -> value, '.live': condition under which the block still runs
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def put(self, env, name, v):
        old = env.get(name)
        live = env['.live']
        env[name] = v if old is None or live == K(True) else ite(live, v, old)

    def guard(self, env):
        return and_(env['.path'], env['.live'])

    def event(self, kind, env, data, n):
        self.events.append((kind, self.guard(env), tuple(self.loops), data, self.where(n)))

    def stmt(self, s, env):
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.ClassDef, ast.Assert)):
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.fns[s.name] = self.fns[(s.name, s.lineno)] = s
            env[s.name] = ('fn', s.name, s.lineno)
            return
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env), env, s)
            return
        if isinstance(s, ast.AugAssign):
            v = self.expr(s.value, env)
            t = s.target
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value, env)
                i = self.expr(t.slice, env)
                op = type(s.op).__name__
                self.event('aug', env, (self.name(t.value), o, i, op, v), s)
                return
            old = self.expr(ast.Name(id=t.id, ctx=ast.Load()), env) if isinstance(t, ast.Name) else None
            if old is None:
                raise Unknown(f'{self.where(s)}: assignment to {ast.unparse(t)}')
            if v[0] == 'meth' and v[1] == 'bincount' and len(v) > 3 and isinstance(s.op, ast.Add):
                j = self.fresh('j')
                self.loops.append((v[3], j))
                self.event('aug', env, (t.id, old, j, 'Add', ONE), s)
                self.loops.pop()
                return
            self.put(env, t.id, self.binop(s.op, old, v, s))
            return
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.expr(s.value, env)
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'quit'):
                env['.live'], env['.dead'] = K(False), 'raise'
            return
        if isinstance(s, ast.If):
            self.branch(s, env)
            return
        if isinstance(s, ast.For):
            self.loop(s, env)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            self.block(s.body, env)
            return
        if isinstance(s, ast.Continue) or isinstance(s, ast.Break):
            if isinstance(s, ast.Break) and self.loops:
                self.event('break', env, (), s)
            env['.live'] = K(False)
            return
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return):
                env['.ret'] = self.expr(s.value, env) if s.value is not None else K(None)
                self.event('return', env, (env['.ret'],), s)
            env['.live'] = K(False)
            env['.dead'] = 'raise' if isinstance(s, ast.Raise) else 'return' if len(self.loops) == self.base else False
            return
        if isinstance(s, ast.Try):
            # the body, as if nothing were raised
            self.block(s.body, env)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
            return
        raise Unknown(f'{self.where(s)}: a {type(s).__name__.lower()} statement')

    def name(self, n):
        return ast.unparse(n)

    def assign(self, t, v, env, s):
        if isinstance(t, ast.Name):
            self.put(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Unknown(f'{self.where(s)}: a starred target')
                self.assign(x, self.at(v, K(i)), env, s)
        elif isinstance(t, ast.Subscript):
            o, i = self.expr(t.value, env), self.expr(t.slice, env)
            if v[0] == '+' and ('at', o, i) in v[1:]:
                self.event('aug', env, (self.name(t.value), o, i, 'Add', add(*[x for x in v[1:] if x != ('at', o, i)])), s)
                return
            self.event('store', env, (self.name(t.value), o, i, v), s)
            if isinstance(t.value, ast.Name) and t.value.id in env and o[0] in ('dict', 'v', 'mut'):
                if o[0] == 'dict' and i[0] == 'k':
                    self.put(env, t.value.id, ('dict', tuple((k, x) for k, x in o[1] if k != i[1]) + ((i[1], v),)))
                else:
                    self.put(env, t.value.id, ('mut', 'setitem', o, i, v))
        elif isinstance(t, ast.Attribute):
            self.event('attr', env, (self.name(t), v), s)
        else:
            raise Unknown(f'{self.where(s)}: a target')

    def branch(self, s, env):
        c = self.expr(s.test, env)
        a, b = dict(env), dict(env)
        # each side runs under its condition
        a['.path'], b['.path'] = and_(env['.path'], c), and_(env['.path'], neg(c))
        if a['.path'] != K(False):
            self.block(s.body, a)
        if b['.path'] != K(False):
            self.block(s.orelse, b)
        if c[0] == 'k':
            w = a if c[1] else b
            for k in w:
                if k != '.path':
                    env[k] = w[k]
            return
        for w, o in ((a, b), (b, a)):
            if w['.live'] == K(False) and w.get('.dead') and env['.live'] != K(False):
                # a run that raises reports nothing: the rest is about the other side
                env.update({k: v for k, v in o.items() if k != '.path'})
                if w['.dead'] == 'return':
                    env['.path'] = o['.path']
                return
        for k in set(a) | set(b):
            if k in ('.path', '.dead'):
                continue
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                # read where only the other side ran, the name raises: nothing is reported
                env[k] = x if y is None else y
            else:
                env[k] = ite(c, x, y)

    def loop(self, s, env):
        seq = self.expr(s.iter, env)
        j = self.fresh('j')
        self.run_loop(s, env, seq, j)

    def run_loop(self, s, env, seq, j):
        base, bind, extra = self.items(seq, j)
        e = dict(env)
        mod = self.modified(s.body) - self.targets(s.target)
        phis = {}
        for n in mod:
            if n in env:
                phis[n] = self.fresh(n)
                e[n] = phis[n]
        e['.live'] = extra
        self.assign_plain(s.target, bind, e, s)
        self.loops.append((base, j))
        e['.path'] = env['.path']
        self.block(s.body, e)
        self.loops.pop()
        brk = any(ev[0] in ('break', 'return') and ev[2][len(self.loops):len(self.loops) + 1] == ((base, j),) for ev in self.events)
        for n in mod:
            nxt = e.get(n)
            if n not in env:
                env[n] = ('lost', f'{n}#{self.n}')
                continue
            nxt = ite(e['.live'], nxt, nxt)
            p = phis[n]
            if nxt == p:
                continue
            t = self.step(nxt, p)
            if any(l[0] == '+' and mentions(l, p) for l in leaves(nxt)):
                self.grow.add(p)
            if t is None and not brk and all(l == p or not mentions(l, p) for l in leaves(nxt)) and not any(mentions(nxt, q) for m, q in phis.items() if m != n):
                env[n] = ('over', j, base, sub(nxt, p, ('v', 'before')))
                continue
            if t is None or brk or any(mentions(t, q) for q in phis.values()):
                self.n += 1
                env[n] = ('lost', f'{n}#{self.n}')
            else:
                self.put(env, n, t(env[n], j, base) if callable(t) else add(env[n], sum_(j, base, t)))
        for t in self.targets(s.target):
            self.n += 1
            env[t] = ('lost', f'{t}#{self.n}')
        # what happened inside, as terms of the accumulators' values there: only those free of them stay precise
        self.block(s.orelse, env)

    def step(self, nxt, p):
        """the term added to p, None when it is not of that form"""
        if nxt == p:
            return ZERO
        if nxt[0] == '+' and p in nxt[1:]:
            r = [x for x in nxt[1:] if x != p]
            t = add(*r)
            return None if mentions(t, p) else t
        if nxt[0] == 'ite':
            a, b = self.step(nxt[2], p), self.step(nxt[3], p)
            if a is None or b is None or mentions(nxt[1], p) or callable(a) or callable(b):
                return None
            return ite(nxt[1], a, b)
        return None

    def assign_plain(self, t, v, e, s):
        live = e['.live']
        e['.live'] = K(True)
        self.assign(t, v, e, s)
        e['.live'] = live

    def items(self, seq, j):
        """the sequence a loop runs through, what its name stands for, and the condition under which the body runs"""
        if seq[0] == 'map':
            b, x, c = self.items(seq[2], j)
            return b, sub(seq[3], seq[1], x), sub(c, seq[1], x)
        if seq[0] == 'filt':
            b, x, c = self.items(seq[2], j)
            return b, x, and_(c, sub(seq[3], seq[1], x))
        if seq[0] == 'call' and seq[1] == 'enumerate' and len(seq) > 2:
            b, x, c = self.items(seq[2], j)
            return b, ('list', ('index', j), x), c
        if seq[0] == 'enum':
            b, x, c = self.items(seq[1], j)
            return b, ('list', ('index', j), x), c
        return seq, j, K(True)

    def targets(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def modified(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    out.add(n.value.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
                    out.add(n.func.value.id)
        return out

    # --- expressions
    def binop(self, op, a, b, n):
        o = type(op).__name__
        if o == 'Add':
            if a[0] == 'list' and b[0] == 'list':
                return a + b[1:]
            if any(x[0] in ('k',) and isinstance(x[1], str) or x[0] in ('map', 'filt', 'list') for x in (a, b)):
                return ('concat', a, b)
            return add(a, b)
        if o == 'Sub':
            return add(a, scale(-1, b))
        if o == 'Mult':
            if a[0] == 'list' or b[0] == 'list':
                return ('repeat', a, b)
            if num(a):
                return scale(a[1], b)
            if num(b):
                return scale(b[1], a)
            return mul(a, b)
        if o == 'Div' and num(b) and b[1]:
            return ('div', a, b)
        return (o.lower(), a, b)

    def expr(self, n, env):
        if n is None:
            return K(None)
        if isinstance(n, ast.Constant):
            return K(n.value)
        if isinstance(n, ast.Name):
            v = env.get(n.id)
            return v if v is not None else ('glob', n.id)
        if isinstance(n, ast.JoinedStr):
            return ('fstr',) + tuple(self.expr(v.value, env) if isinstance(v, ast.FormattedValue) else K(v.value) for v in n.values)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            if any(isinstance(x, ast.Starred) for x in n.elts):
                return ('expr', ast.unparse(n), self.free(n, env))
            return ('list',) + tuple(self.expr(x, env) for x in n.elts)
        if isinstance(n, ast.Dict):
            return ('dict', tuple((k.value if isinstance(k, ast.Constant) else repr(self.expr(k, env)), self.expr(v, env)) for k, v in zip(n.keys, n.values)))
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.expr(n.left, env), self.expr(n.right, env), n)
        if isinstance(n, ast.UnaryOp):
            v = self.expr(n.operand, env)
            if isinstance(n.op, ast.Not):
                return neg(self.truth(v))
            if isinstance(n.op, ast.USub):
                return scale(-1, v)
            return v
        if isinstance(n, ast.BoolOp):
            vs = [self.truth(self.expr(v, env)) for v in n.values]
            r = K(True)
            if isinstance(n.op, ast.And):
                for v in vs:
                    r = and_(r, v)
                return r
            for v in vs:
                r = and_(r, neg(v))
            return neg(r)
        if isinstance(n, ast.Compare):
            xs = [self.expr(x, env) for x in [n.left] + n.comparators]
            r = K(True)
            for o, a, b in zip(n.ops, xs, xs[1:]):
                r = and_(r, self.cmp(type(o).__name__, a, b))
            return r
        if isinstance(n, ast.IfExp):
            return ite(self.truth(self.expr(n.test, env)), self.expr(n.body, env), self.expr(n.orelse, env))
        if isinstance(n, ast.NamedExpr):
            v = self.expr(n.value, env)
            self.put(env, n.target.id, v)
            return v
        if isinstance(n, ast.Attribute):
            return ('attr', self.expr(n.value, env), n.attr)
        if isinstance(n, ast.Subscript):
            v = self.expr(n.value, env)
            i = self.expr(n.slice, env)
            return self.at(v, i)
        if isinstance(n, ast.Slice):
            return ('slice', self.expr(n.lower, env), self.expr(n.upper, env), self.expr(n.step, env))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comp(n, env)
        if isinstance(n, ast.Lambda):
            self.n += 1
            self.lams[self.n] = (n, dict(env))
            return ('lam', self.n, ast.unparse(n), self.free(n, env))
        if isinstance(n, ast.Call):
            return self.call(n, env)
        return ('expr', ast.unparse(n), self.free(n, env))

    def at(self, v, i):
        if v[0] == 'ite':
            return ite(v[1], self.at(v[2], i), self.at(v[3], i))
        if v[0] == 'list' and i[0] == 'k' and isinstance(i[1], int) and -len(v) < i[1] < len(v) - 1:
            return v[1:][i[1]]
        if v[0] == 'dict' and i[0] == 'k':
            for k, x in v[1]:
                if k == i[1]:
                    return x
        return ('at', v, i)

    def free(self, n, env):
        return tuple((x, env[x]) for x in sorted({y.id for y in ast.walk(n) if isinstance(y, ast.Name)}) if x in env)

    def truth(self, v):
        if v[0] == 'k':
            return K(bool(v[1]))
        return v

    def cmp(self, o, a, b):
        if a[0] == 'k' and b[0] == 'k':
            try:
                return K({'Eq': a[1] == b[1], 'NotEq': a[1] != b[1]}[o]) if o in ('Eq', 'NotEq') else K(eval(f'a {OPS[o]} b', {'a': a[1], 'b': b[1]}))
            except Exception:
                pass
        if ('glob', '__name__') in (a, b) and o == 'Eq':
            return K(True)
        if o == 'NotEq':
            return neg(self.cmp('Eq', a, b))
        if o == 'IsNot':
            return neg(self.cmp('Is', a, b))
        if o == 'NotIn':
            return neg(self.cmp('In', a, b))
        if o == 'Gt':
            return self.cmp('Lt', b, a)
        if o == 'GtE':
            return neg(self.cmp('Lt', a, b))
        if o == 'LtE':
            return neg(self.cmp('Lt', b, a))
        # counts are whole and not negative: 0 < x iff 1 <= x iff x != 0
        if o == 'Lt' and b == ONE and count(a):
            return neg(('lt', ZERO, a))
        if o == 'Eq' and count(a) and b == ZERO:
            return neg(('lt', ZERO, a))
        if o == 'Eq' and count(b) and a == ZERO:
            return neg(('lt', ZERO, b))
        if o == 'In':
            return ('in', a, b)
        return (o.lower(), a, b)

    def comp(self, n, env):
        if len(n.generators) > 2:
            return ('expr', ast.unparse(n), self.free(n, env))
        e = dict(env)
        e['.path'] = self.guard(env)
        return self.gens(n.generators, n.elt, e, isinstance(n, ast.SetComp), n)

    def gens(self, gs, elt, e, isset, n):
        g = gs[0]
        seq = self.expr(g.iter, e)
        j = self.fresh('c')
        base, x, c = self.items(seq, j)
        e = dict(e)
        e['.live'] = K(True)
        self.assign_plain(g.target, x, e, n)
        for i in g.ifs:
            c = and_(c, self.truth(self.expr(i, e)))
        s = filt(j, base, c)
        if isset:
            return ('set', s, self.expr(elt, e))
        if len(gs) > 1:
            return ('flat', j, s, self.gens(gs[1:], elt, e, isset, n))
        v = self.expr(elt, e)
        if s[0] == 'filt':
            w = s[1]
            return ('fmap', w, s, sub(v, j, w)) if v != j else s
        return map_(j, s, v)

    def total(self, s):
        """the sum of a sequence's elements"""
        if s[0] == 'flat':
            inner = self.total(s[3])
            return sum_(s[1], s[2], inner)
        if s[0] == 'fmap':
            f = s[2]
            return sum_(f[1], f[2], ite(f[3], s[3], ZERO))
        v = self.fresh('s')
        return sum_(v, s, v)

    def call(self, n, env):
        f = n.func
        args = [self.expr(a.value if isinstance(a, ast.Starred) else a, env) for a in n.args]
        kw = {k.arg: self.expr(k.value, env) for k in n.keywords}
        star = any(isinstance(a, ast.Starred) for a in n.args)
        if isinstance(f, ast.Name) and f.id not in env and not star:
            b = f.id
            if b == 'len' and len(args) == 1:
                return self.size(args[0])
            if b == 'sum' and len(args) == 1 and not kw:
                return self.total(args[0])
            if b == 'sum' and len(args) == 2:
                return add(args[1], self.total(args[0]))
            if b == 'int' and len(args) == 1 and args[0][0] in ('lt', 'in', 'eq', 'is', 'not', 'and'):
                return ite(args[0], ONE, ZERO)
            if b in ('list', 'tuple', 'iter', 'int') and len(args) == 1 and not kw:
                if b == 'int' and not (count(args[0]) or args[0][0] == 'sum'):
                    return ('call', 'int', args[0])
                return args[0]
            if b == 'tqdm' and args:
                return args[0]
            if b == 'enumerate' and len(args) == 1 and not kw:
                return ('enum', args[0])
            if b == 'map' and len(args) == 2:
                j = self.fresh('m')
                x = self.apply(args[0], [j], {}, n, env)
                base, y, c = self.items(args[1], j)
                x = sub(x, j, y)
                f = filt(j, base, c)
                if f[0] == 'filt':
                    return ('fmap', f[1], f, sub(x, j, f[1])) if x != j else f
                return map_(j, base, x)
            if b == 'filter' and len(args) == 2:
                j = self.fresh('m')
                x = j if args[0] == K(None) else self.apply(args[0], [j], {}, n, env)
                base, y, c = self.items(args[1], j)
                f = filt(j, base, and_(c, sub(self.truth(x), j, y)))
                return ('fmap', f[1], f, sub(y, j, f[1])) if f[0] == 'filt' and y != j else f
            if b == 'dict' and not args and None not in kw:
                return ('dict', tuple(kw.items()))
            if b == 'sorted' and len(args) == 1 and kw == {'reverse': K(True)}:
                return ('at', ('call', 'sorted', args[0]), BACK)
            if b == 'reversed' and len(args) == 1:
                return ('at', args[0], BACK)
            if b == 'print':
                self.event('print', env, tuple(args), n)
                return K(None)
            if b == 'round' and len(args) == 2 and not kw:
                return ('call', 'round', args[0], args[1])
            if b == 'open' and args:
                mode = args[1] if len(args) > 1 else kw.get('mode', K('r'))
                return ('open', args[0], mode)
            if b == 'bool' and len(args) == 1:
                return self.truth(args[0])
            if b in ('abs', 'min', 'max', 'str', 'range', 'sorted', 'zip', 'reversed', 'set', 'dict', 'float', 'repr'):
                return ('call', b) + tuple(args) + tuple(('kw', k, v) for k, v in sorted(kw.items(), key=lambda x: str(x[0])))
        if isinstance(f, ast.Name) and f.id in env:
            return self.apply(env[f.id], args, kw, n, env)
        if isinstance(f, ast.Attribute):
            o = self.expr(f.value, env)
            if f.attr in MUT and isinstance(f.value, ast.Name) and f.value.id in env:
                v = ('mut', f.attr, o) + tuple(args) + tuple(('kw', k, x) for k, x in sorted(kw.items(), key=lambda y: str(y[0])))
                self.put(env, f.value.id, v)
                self.event('mutate', env, (f.value.id, f.attr, tuple(args)), n)
                return K(None)
            if f.attr in MUT and isinstance(f.value, ast.Subscript) and isinstance(f.value.value, ast.Name) and f.value.value.id in env:
                self.n += 1
                self.put(env, f.value.value.id, ('at', ('mut', 'sort', o), BACK) if f.attr == 'sort' and o[0] == 'at' and o[2] == BACK and not args and not kw else ('lost', f'{f.value.value.id}#{self.n}'))
                return K(None)
            if ast.unparse(f.value) in ('np', 'numpy') and len(args) >= 1:
                if f.attr in ('array', 'asarray') and args[0][0] != 'list':
                    return args[0]
                if f.attr == 'sort' and len(args) == 1 and not kw:
                    return ('call', 'sorted', args[0])
                if f.attr in ('flip', 'flipud') and len(args) == 1:
                    return ('at', args[0], BACK)
                if f.attr == 'negative' and len(args) == 1:
                    return scale(-1, args[0])
            if f.attr == 'read' and o[0] == 'open' and not args:
                return ('read', o[1], o[2])
            if f.attr == 'dump' and ast.unparse(f.value) == 'json':
                self.event('dump', env, tuple(args), n)
                return K(None)
            if ast.unparse(f) in ('np.add.at', 'numpy.add.at') and len(args) == 3:
                j = self.fresh('j')
                self.loops.append((args[1], j))
                self.event('aug', env, (self.name(n.args[0]), args[0], j, 'Add', args[2]), n)
                self.loops.pop()
                return K(None)
            if f.attr == 'item' and not args:
                return o
            if f.attr in ('sum',) and not args and not kw:
                return ('npsum', o)
            if ast.unparse(f) in ('np.sum', 'numpy.sum') and len(args) == 1:
                return ('npsum', args[0])
            if f.attr == 'write' and len(args) == 1:
                self.event('write', env, (o, args[0]), n)
                return K(None)
            v = ('meth', f.attr, o) + tuple(args) + tuple(('kw', k, x) for k, x in sorted(kw.items(), key=lambda y: str(y[0])))
            return v
        fv = self.expr(f, env)
        return ('call', fv) + tuple(args) + tuple(('kw', k, v) for k, v in sorted(kw.items(), key=lambda x: str(x[0])))

    def size(self, s):
        if s[0] == 'flat':
            return sum_(s[1], s[2], self.size(s[3]))
        if s[0] == 'fmap':
            return self.size(s[2])
        if s[0] == 'enum':
            return self.size(s[1])
        return length(s)

    def apply(self, f, args, kw, n, env):
        if f == ('glob', 'len') and len(args) == 1:
            return length(args[0])
        if f[0] == 'ite' and self.deep < DEPTH:
            return ite(f[1], self.apply(f[2], args, kw, n, env), self.apply(f[3], args, kw, n, env))
        if f[0] == 'attr':
            return ('meth', f[2], f[1]) + tuple(args) + tuple(('kw', k, x) for k, x in sorted(kw.items(), key=lambda y: str(y[0])))
        if f[0] == 'fn' and self.deep < DEPTH:
            g = self.fns[f[1:3]]
            if not (g.args.vararg or g.args.kwarg or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(g))):
                ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                e = {k: v for k, v in env.items() if not k.startswith('.')}
                for p, d in zip(ps[len(ps) - len(g.args.defaults):], g.args.defaults):
                    e[p] = self.expr(d, env)
                for a, d in zip(g.args.kwonlyargs, g.args.kw_defaults):
                    if d is not None:
                        e[a.arg] = self.expr(d, env)
                for p, v in zip(ps, args):
                    e[p] = v
                e.update({k: v for k, v in kw.items() if k})
                e['.live'], e['.path'] = K(True), self.guard(env)
                self.deep += 1
                n0 = len(self.events)
                base, self.base = self.base, len(self.loops)
                try:
                    self.block(g.body, e)
                finally:
                    self.deep -= 1
                    self.base = base
                rets = [x for x in self.events[n0:] if x[0] == 'return']
                self.events[n0:] = [x for x in self.events[n0:] if x[0] != 'return']
                if not rets:
                    return K(None)
                if any(len(r[2]) > len(self.loops) for r in rets):
                    return ('lost', f'{f[1]}#{self.n}')
                v = rets[-1][3][0]
                for r in rets[-2::-1]:
                    v = ite(self.rel(r[1], env), r[3][0], v)
                return v
        if f[0] == 'lam' and self.deep < DEPTH:
            g, e = self.lams[f[1]]
            ps = [a.arg for a in g.args.posonlyargs + g.args.args]
            if not (g.args.vararg or g.args.kwarg) and len(ps) == len(args) and not kw:
                e = dict(e)
                e.update(zip(ps, args))
                e['.live'], e['.path'] = K(True), self.guard(env)
                self.deep += 1
                try:
                    return self.expr(g.body, e)
                finally:
                    self.deep -= 1
        return ('call', f) + tuple(args) + tuple(('kw', k, v) for k, v in sorted(kw.items(), key=lambda x: str(x[0])))

    def rel(self, g, env):
        known = self.guard(env)
        for x in (known[1:] if known[0] == 'and' else (known,)):
            g = assume(g, x, True)
        return g


def count(t):
    """a whole number that is not negative"""
    if num(t):
        return isinstance(t[1], int) and t[1] >= 0
    if t[0] == 'len' or t[0] == 'meth' and t[1] == 'count':
        return True
    if t[0] == 'sum':
        return count(t[3])
    if t[0] == '+':
        return all(count(x) for x in t[1:])
    if t[0] == '*k':
        return t[1] >= 0 and count(t[2])
    if t[0] == 'ite':
        return count(t[2]) and count(t[3])
    return False


BACK = ('slice', K(None), K(None), K(-1))
OPS = {'Lt': '<', 'Gt': '>', 'LtE': '<=', 'GtE': '>=', 'Is': 'is', 'In': 'in'}
MUT = {'append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'clear', 'update', 'remove', 'fill', 'discard', 'add'}


# ------------------------------------------------------------ obligations
def c37(cx):
    ev = dump.REPO + '/scripts/evaluate.py'
    fi = dump.REPO + '/scripts/find.py'
    if os.path.exists(ev):
        cx.ob('encoders', 'each library encodes the whole sample, without dropout and without added special tokens', encoders, cx, ev)
        for n, w in (('tokens', 'the tokens of every sample of a file are counted once'), ('chars', 'the characters of every sample of a file are counted once'),
                     ('ratio', 'the ratio reported is characters per token'), ('samples', 'a file is read whole and split at the separator'), ('files', 'every file that matches is reported')):
            cx.ob('evaluate:' + n, w, evaluated, cx, ev, n)
        cx.ob('evaluate:frequency', 'every token of every sample adds one to the frequency of its id', frequency, cx, ev)
        cx.ob('evaluate:buckets', 'the buckets are consecutive ranges of the frequencies in descending order', buckets, cx, ev)
    if os.path.exists(fi):
        cx.ob('find:totals', 'the totals are the sums over every sample of every file', totals, cx, fi)
        cx.ob('find:files', 'each line reports the sums over the samples of its file', perfile, cx, fi)


def symbolic(cx, p):
    k = ('counts', p)
    if k not in cx.cache:
        s = Sym(p)
        try:
            s.block(s.tree.body, {'.live': K(True), '.path': K(True)})
        except Unknown as ex:
            cx.cache[k] = Undecided(str(ex))
        except RecursionError:
            cx.cache[k] = Undecided('terms too deep')
        else:
            cx.cache[k] = s
    if isinstance(cx.cache[k], Exception):
        raise cx.cache[k]
    return cx.cache[k]


def lost(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'expr':
        # an opaque value, unless it depends on what a loop runs through
        return lost(t[2]) or varies(t[2])
    return bool(t) and t[0] in ('lost', 'undef') or any(lost(x) for x in t if isinstance(x, tuple))


def varies(t):
    return isinstance(t, tuple) and (len(t) == 2 and t[0] == 'v' or any(varies(x) for x in t))


def say(t):
    """a readable form of a term"""
    if not isinstance(t, tuple):
        return str(t)
    o = t[0]
    if o == 'k':
        return repr(t[1])
    if o == 'v':
        return t[1]
    if o == 'glob':
        return t[1]
    if o == 'sum':
        return f'sum({say(t[3])} for {say(t[1])} in {say(t[2])})'
    if o == 'len':
        return f'len({say(t[1])})'
    if o == '+':
        return ' + '.join(map(say, t[1:]))
    if o == '*k':
        return f'{t[1]}*{say(t[2])}'
    if o == 'mul':
        return '*'.join(map(say, t[1:]))
    if o == 'meth':
        return f'{say(t[2])}.{t[1]}({", ".join(map(say, t[3:]))})'
    if o == 'call':
        return f'{say(t[1])}({", ".join(map(say, t[2:]))})'
    if o == 'attr':
        return f'{say(t[1])}.{t[2]}'
    if o == 'ite':
        return f'({say(t[2])} if {say(t[1])} else {say(t[3])})'
    if o == 'kw':
        return f'{t[1]}={say(t[2])}'
    if o == 'fn':
        return t[1]
    if o == 'dict':
        return '{' + ', '.join(f'{k}: {say(v)}' for k, v in t[1]) + '}'
    return f'{o}({", ".join(say(x) for x in t[1:] if isinstance(x, (tuple, str)))})'


def leaves(t):
    return leaves(t[2]) + leaves(t[3]) if t[0] == 'ite' else [t]


TEXT = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'split', 'splitlines', 'expandtabs', 'title', 'swapcase', 'casefold', 'removesuffix', 'removeprefix', 'join', 'format', 'translate', 'partition'}


def source(s, where, texts=True):
    """the file whose samples a sequence is: the variable; raises when it is not all of them, whole"""
    dec = False
    while True:
        if s[0] == 'map' and s[3][0] == 'meth' and s[3][1] == 'decode' and s[3][2] == s[1]:
            s, dec = s[2], True
            continue
        if s[0] == 'fmap' and s[2][0] == 'filt':
            s = s[2]
        if s[0] == 'filt' and s[3] in (s[1], ('lt', ZERO, ('len', s[1]))) and s[2][0] in ('at', 'filt', 'map'):
            s = s[2]
            continue
        break
    if s[0] == 'filt':
        if s[3] in (s[1], ('lt', ZERO, ('len', s[1]))):
            raise Undecided('empty samples are left out')
        raise Violation(f'only the samples that satisfy {say(s[3])[:80]} are counted', where)
    if s[0] == 'at' and s[2][0] == 'slice':
        raise Violation(f'only a part of the samples is counted: {say(s)[:120]}', where)
    if s[0] == 'call' and s[1] == 'set' or s[0] == 'set':
        raise Violation('samples that occur twice are counted once', where)
    if s[0] == 'read' or s[0] == 'open' or s[0] == 'meth' and s[1] in ('readlines', 'splitlines'):
        raise Violation(f'a file is taken apart into {"characters" if s[0] == "read" else "lines"}, not samples', where)
    if s[0] == 'meth' and s[1] == 'split':
        r, sep = s[2], s[3:]
        if not sep or sep[0] not in (K('\0'), K(b'\0')):
            if sep and sep[0][0] != 'k':
                raise Undecided(f'the separator of samples is not recognised: {say(sep[0])}')
            raise Violation(f'a file is split at {say(sep[0]) if sep else "white space"}, samples are separated by NUL', where)
        if len(sep) > 1:
            raise Violation('a file is split into a limited number of samples', where)
        if r[0] == 'meth' and r[1] == 'decode':
            r, dec = r[2], True
        if r[0] == 'meth' and r[1] in TEXT:
            raise Violation(f'a file is changed before it is split: {say(r)[:100]}', where)
        if r[0] == 'at':
            raise Violation(f'only a part of a file is read: {say(r)[:100]}', where)
        if r[0] == 'read':
            m = r[2]
            if m[0] != 'k':
                raise Undecided('the mode of a file is not recognised')
            return r[1], dec or 'b' not in str(m[1])
        if r[0] == 'meth' and r[1] == 'read' and len(r) > 3:
            raise Violation('only a part of a file is read', where)
        if r[0] == 'meth' and r[1] in ('read_text', 'read_bytes'):
            return r[2][2] if r[2][0] == 'call' and len(r[2]) == 3 else r[2], dec or r[1] == 'read_text'
    raise Undecided(f'the samples of a file are not recognised: {say(s)[:160]}')


def decoded(t, v):
    """t is the sample v itself, or its text"""
    return t == v or t[0] == 'meth' and t[1] == 'decode' and t[2] == v


def encoding(x, v, where):
    """x is the tokens of the sample v"""
    for l in leaves(x):
        while l[0] == 'attr' and l[2] == 'ids':
            l = l[1]
        if l[0] == 'at':
            raise Violation(f'only a part of the tokens is counted: {say(l)[:120]}', where)
        if l[0] == 'call' and l[1] == 'set' or l[0] == 'set':
            raise Violation('tokens that occur twice are counted once', where)
        a = l[2:] if l[0] == 'call' else l[3:] if l[0] == 'meth' else None
        if a is None or l[0] == 'call' and isinstance(l[1], str) or not mentions(l, v):
            raise Undecided(f'the tokens of a sample are not recognised: {say(l)[:160]}')
        if l[0] == 'meth' and mentions(l[2], v):
            raise Undecided(f'the tokens of a sample are not recognised: {say(l)[:160]}')
        for y in a:
            if y[0] == 'kw':
                y = y[2]
            if mentions(y, v) and not decoded(y, v):
                if y[0] == 'at' or y[0] == 'meth' and y[1] in TEXT:
                    raise Violation(f'a sample is changed before it is encoded: {say(y)[:100]}', where)
                raise Undecided(f'what is encoded is not recognised: {say(y)[:100]}')


def cond(e):
    """the condition of an event, apart from there being something to loop over"""
    r = K(True)
    seqs = [q for q, _ in e[2]]
    for x in (e[1][1:] if e[1][0] == 'and' else (e[1],)):
        if x not in seqs and x not in [('lt', ZERO, length(q)) for q in seqs]:
            r = and_(r, x)
    return r


KEYS = ('num_tokens', 'num_chars', 'chars_per_token')


def report(cx, p):
    s = symbolic(cx, p)
    es = [e for e in s.events if e[0] == 'store' and e[3][3][0] == 'dict' and 'num_tokens' in dict(e[3][3][1])]
    if len(es) != 1:
        raise Undecided(f'{len(es)} places store what a file compresses to')
    e = es[0]
    d = dict(e[3][3][1])
    for k in KEYS:
        if k not in d:
            raise Violation(f'{k} is not reported', e[4])
    return s, e, d


def evaluated(cx, p, what):
    s, e, d = report(cx, p)
    where = e[4]
    if lost(d.get({'tokens': 'num_tokens', 'chars': 'num_chars'}.get(what, 'num_tokens'))):
        raise Undecided('a count is not in closed form')
    if what == 'files':
        if len(e[2]) != 1:
            raise Undecided(f'the result is stored inside {len(e[2])} loops')
        seq, j = e[2][0]
        q = seq
        while q[0] == 'call' and q[1] in ('sorted', 'reversed'):
            q = q[2]
        if q[0] == 'at' and q[2][0] == 'slice' or q[0] == 'filt':
            raise Violation(f'only some of the files are evaluated: {say(q)[:100]}', where)
        if q[0] != 'meth' or q[1] not in ('glob', 'iglob'):
            raise Undecided(f'the files are not recognised: {say(seq)[:100]}')
        c = cond(e)
        if c not in (K(True), ('lt', ZERO, d['num_tokens']), ('lt', ZERO, d['num_chars']), d['num_tokens'], d['num_chars']):
            if lost(c):
                raise Undecided('a condition is not recognised')
            raise Violation(f'a file is reported only if {say(c)[:120]}', where)
        if any(x[0] == 'break' and x[2] == e[2] for x in s.events):
            raise Violation('the loop over the files ends early', where)
        if not mentions(e[3][2], j):
            raise Violation(f'files are reported under one key: {say(e[3][2])[:80]}', where)
        if q[3:] and 'args' not in say(q[3]):
            raise Undecided('where the files are is not recognised')
        return say(seq)
    if len(e[2]) != 1:
        raise Undecided(f'the result is stored inside {len(e[2])} loops')
    f = e[2][0][1]
    if what == 'ratio':
        t = d['chars_per_token']
        ls = leaves(t)
        for t in ls:
          if t[0] == 'call' and t[1] == 'round':
            if t[3][0] == 'k' and isinstance(t[3][1], int) and t[3][1] < 2:
                raise Violation(f'the ratio is rounded to {t[3][1]} digits', where)
            t = t[2]
          for l in leaves(t):
            if l != ('div', d['num_chars'], d['num_tokens']):
                if l == ZERO and (t[0] == 'ite' or len(ls) > 1):
                    continue
                if lost(l):
                    raise Undecided('the ratio is not in closed form')
                raise Violation(f'chars_per_token is {say(l)[:200]}', where)
        return 'num_chars / num_tokens'
    t = d['num_tokens' if what != 'chars' else 'num_chars']
    if what == 'samples':
        v = bound(t, where)[2]
        path, text = source(v, where)
        if path != f:
            raise (Violation if mentions(path, f) is False and path[0] != 'lost' else Undecided)(f'the samples counted are those of {say(path)[:80]}', where)
        if not text and any(decoded_len(d['num_chars'])):
            raise Violation('bytes are counted, not characters', where)
        return say(v)[:100]
    b, v, seq, term = bound(t, where)
    if what == 'tokens':
        if term[0] != 'len':
            for l in leaves(term):
                if l == ZERO and term[0] == 'ite':
                    raise Violation(f'the tokens of a sample are counted only if {say(term[1])[:120]}', where)
            raise Undecided(f'what a sample adds is not recognised: {say(term)[:160]}')
        encoding(term[1], v, where)
        return say(term)[:100]
    path, text = source(seq, where)
    if term == ('len', v):
        if not text:
            raise Violation('bytes are counted, not characters', where)
        return say(term)
    if term[0] == 'len' and term[1][0] == 'meth' and term[1][1] == 'decode' and term[1][2] == v:
        return say(term)
    if term[0] == 'len' and term[1][0] == 'meth' and term[1][1] == 'encode':
        raise Violation('bytes are counted, not characters', where)
    if term[0] == 'ite' and ZERO in leaves(term):
        raise Violation(f'the characters of a sample are counted only if {say(term[1])[:120]}', where)
    if term[0] == 'len' and term[1][0] in ('meth', 'at') and mentions(term[1], v):
        raise Violation(f'a sample adds {say(term)[:120]} characters', where)
    raise Undecided(f'what a sample adds is not recognised: {say(term)[:160]}')


def decoded_len(t):
    return [x == ('len', t[1]) for x in ([t[3]] if t[0] == 'sum' else [])]


def bound(t, where):
    """a sum over samples: (the sum, its name, the sequence, the term)"""
    if t[0] != 'sum':
        if t[0] == '+':
            extra = [x for x in t[1:] if x[0] != 'sum']
            if extra and not any(lost(x) for x in extra):
                raise Violation(f'{" + ".join(map(say, extra))[:120]} is added to the sum', where)
        if num(t):
            raise Violation(f'the count is {t[1]}', where)
        if t[0] == '*k' and t[2][0] == 'sum':
            raise Violation(f'the count is multiplied by {t[1]}', where)
        if t[0] == 'len':
            raise Violation(f'what is counted is {say(t)[:120]}', where) if t[1][0] in ('meth', 'map') else Undecided(say(t)[:120])
        if t[0] == 'over':
            raise Violation(f'the count is overwritten at each step, by {say(t[3])[:120]}', where)
        raise Undecided(f'a count is not recognised: {say(t)[:160]}')
    # the empty sample has no characters and no tokens
    return t, t[1], t[2], assume(t[3], t[1], True)


def encoders(cx, p):
    """options of the calls that encode, wherever they are"""
    tree = ast.parse(open(p, encoding='utf-8').read())
    rel = os.path.relpath(p, dump.REPO)
    n = 0
    for c in ast.walk(tree):
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)):
            continue
        m = c.func.attr
        if m not in ('encode', 'encode_ordinary', 'encode_batch', 'encode_ordinary_batch', 'EncodeAsIds', 'Encode'):
            continue
        if isinstance(c.func.value, ast.Constant) or ast.unparse(c.func.value) in ('str', 'bytes', 'json'):
            continue
        n += 1
        for k in c.keywords:
            v = k.value.value if isinstance(k.value, ast.Constant) else None
            if k.arg == 'dropout' and isinstance(k.value, ast.Constant) and v not in (0, None):
                raise Violation(f'samples are encoded with dropout {v}', f'{rel}:{c.lineno}')
            if k.arg == 'add_special_tokens' and v is True:
                raise Violation('special tokens are added to every sample and counted', f'{rel}:{c.lineno}')
            if k.arg in ('max_length', 'truncation') and v:
                raise Violation('samples are truncated', f'{rel}:{c.lineno}')
        kws = {k.arg for k in c.keywords}
        if m == 'encode' and transformers(tree, c) and 'add_special_tokens' not in kws and None not in kws:
            raise Violation('special tokens are added to every sample and counted: transformers adds them unless told not to', f'{rel}:{c.lineno}')
        if len(c.args) > 1 and isinstance(c.args[1], ast.Constant) and isinstance(c.args[1].value, float) and c.args[1].value:
            raise Violation(f'samples are encoded with dropout {c.args[1].value}', f'{rel}:{c.lineno}')
    if not n:
        raise Undecided('no call encodes')
    return f'{n} calls'


def transformers(tree, c):
    """the call is in the block that makes its receiver with transformers"""
    if not isinstance(c.func.value, ast.Name):
        return False
    x = c.func.value.id
    for n in ast.walk(tree):
        for b in ('body', 'orelse'):
            bl = getattr(n, b, None)
            if not isinstance(bl, list) or not any(y is c for s in bl for y in ast.walk(s)):
                continue
            for s in bl:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in s.targets):
                    return 'AutoTokenizer' in ast.unparse(s.value) or 'transformers' in ast.unparse(s.value)
    return False


def frequency(cx, p):
    s, e, d = report(cx, p)
    t = d['num_tokens']
    fs = [x for x in s.events if x[0] == 'aug' and len(x[2]) >= 2]
    fs = [x for x in fs if x[2][:1] == e[2]]
    counters = {t.id for n in ast.walk(s.tree) if isinstance(n, ast.Assign) and ast.unparse(n.value) in ('Counter()', 'collections.Counter()') for t in n.targets if isinstance(t, ast.Name)}
    for x in s.events:
        if x[0] == 'mutate' and x[3][0] in counters and x[3][1] == 'update' and len(x[3][2]) == 1 and x[2][:1] == e[2]:
            j = s.fresh('j')
            fs.append(('aug', x[1], x[2] + ((x[3][2][0], j),), (x[3][0], K(None), j, 'Add', ONE), x[4]))
    if not fs:
        for y in s.events:
            if y[0] == 'store' and len(y[2]) == 3 and y[2][:1] == e[2] and y[3][2] == y[2][2][1] and num(y[3][3]):
                raise Violation(f'the count of a token is set to {say(y[3][3])}, however often it occurs', y[4])
    if len(fs) != 1:
        raise Undecided(f'{len(fs)} places count the frequencies')
    x = fs[0]
    name, o, i, op, v = x[3]
    where = x[4]
    if len(x[2]) == 2 and not lost(i) and mentions(i, x[2][1][1]):
        source(x[2][1][0], where)
        encoding(i, x[2][1][1], where)
        raise Violation('a token that occurs several times in a sample is counted once: the tokens are an index, and each place is added to once', where)
    if len(x[2]) != 3:
        raise Undecided(f'frequencies are counted inside {len(x[2])} loops')
    (fseq, f), (sseq, sm), (tseq, tk) = x[2]
    source(sseq, where)
    if lost(tseq) or lost(x[1]):
        raise Undecided('what is counted is not recognised')
    if tseq[0] == 'call' and tseq[1] == 'set':
        raise Violation('tokens that occur twice in a sample are counted once', where)
    encoding(tseq, sm, where)
    if any(y[0] in ('break', 'return') and y[2][:1] == x[2][:1] for y in s.events):
        raise Violation('a loop over samples or tokens ends early', where)
    if cond(x) != K(True):
        raise Violation(f'a token is counted only if {say(cond(x))[:120]}', where)
    if i != tk:
        if not lost(i):
            raise Violation(f'a token is counted under {say(i)[:100]}', where)
        raise Undecided('the index is not recognised')
    if op != 'Add' or v != ONE:
        raise Violation(f'a token adds {say(v)[:80]}' if op == 'Add' else f'frequencies are changed by {op}', where)
    return f'{name}[{say(i)}] += 1'


def strip(t):
    return strip(t[2]) if t[0] == 'call' and t[1] in ('int', 'float') and len(t) == 3 else t


def order(w, where):
    """'asc' or 'desc', None when not sorted"""
    if w[0] == 'at' and w[2] == BACK or w[0] == '*k' and w[1] == -1:
        o = order(w[1] if w[0] == 'at' else w[2], where)
        return {'asc': 'desc', 'desc': 'asc'}.get(o)
    if w[0] == 'at' and w[2][0] == 'slice' and w[2][1] in (K(None), ZERO) and w[2][3] in (K(None), ONE):
        return order(w[1], where)
    if w[0] in ('mut', 'meth', 'call') and w[1] in ('sort', 'sorted'):
        if len(w) == 3:
            return 'asc'
        if w[3:] == (('kw', 'reverse', K(True)),):
            return 'desc'
        raise Undecided(f'the order of the frequencies is not recognised: {say(w)[:120]}')
    if w[0] in ('mut', 'meth', 'call', 'lost', 'v', 'expr', 'ite') and w[1] not in ('zeros',):
        raise Undecided(f'the order of the frequencies is not recognised: {say(w)[:120]}')
    return None


def negs(w):
    n = 0
    while w[0] in ('at', '*k', 'mut', 'meth', 'call') and len(w) > 1:
        n += w[0] == '*k'
        w = w[1] if w[0] == 'at' else w[2]
        if not isinstance(w, tuple):
            break
    return n


def buckets(cx, p):
    s, e, d = report(cx, p)
    bs = []
    for x in s.events:
        if x[0] != 'store':
            continue
        v = strip(x[3][3])
        if v[0] == 'npsum':
            if len(x[2]) != 1 or x[1] != K(True):
                raise Undecided('the buckets are not filled in one loop')
            seq, j = x[2][0]
            bs.append((x, seq, j, x[3][2], v))
        elif v[0] == 'map' and strip(v[3])[0] == 'npsum':
            bs.append((x, v[2], v[1], v[1], strip(v[3])))
    if len(bs) != 1:
        raise Undecided(f'{len(bs)} places fill the buckets')
    x, seq, j, i, v = bs[0]
    where = x[4]
    if seq[0] != 'call' or seq[1] != 'range' or i != j or not 3 <= len(seq) <= 5:
        raise Undecided('the loop over the buckets is not recognised')
    start = seq[2] if len(seq) > 3 else ZERO
    step = seq[4] if len(seq) > 4 else ONE
    a = v[1]
    if a[0] != 'at' or a[2][0] != 'slice' or a[2][3] not in (K(None), ONE):
        raise Undecided(f'what a bucket sums is not recognised: {say(a)[:120]}')
    lo, hi = a[2][1], a[2][2]
    if lo == K(None) or hi == K(None):
        raise Violation(f'a bucket sums {say(a)[:120]}', where)
    if lost(lo) or lost(hi) or lost(start) or lost(step):
        raise Undecided('a bucket is not recognised')
    if sub(lo, j, start) != ZERO:
        raise Violation(f'the first bucket starts at {say(sub(lo, j, start))}', where)
    if sub(lo, j, add(j, step)) != hi:
        raise Violation(f'a bucket ends at {say(hi)[:80]}, the next starts at {say(sub(lo, j, add(j, step)))[:80]}', where)
    o = order(a[1], where)
    if o is None:
        raise Violation('the frequencies are not sorted', where)
    if negs(a[1]) % 2:
        raise Undecided('the frequencies are negated')
    if o != 'desc':
        raise Violation('the buckets hold the frequencies in ascending order', where)
    return f'[{say(lo)}:{say(hi)}] of the sorted frequencies'


# ------------------------------------------------------------ find.py
def is_files(q):
    while q[0] == 'call' and q[1] in ('sorted', 'reversed'):
        q = q[2]
    return q[0] == 'meth' and q[1] in ('glob', 'iglob')


def occur(t, where):
    """what a sample adds: 'n' its occurrences, 's' one if there is any; the variable and the samples"""
    if t[0] != 'sum':
        return None
    v, seq, term = t[1], t[2], t[3]
    c = term
    kind = 'n'
    if term[0] == 'ite' and term[2:] in ((ONE, ZERO),):
        kind, c = 's', term[1]
        if c[0] == 'lt' and c[1] == ZERO:
            c = c[2]
        elif c[0] == 'in' and decoded(c[2], v):
            c = ('meth', 'count', c[2], c[1])
    if c[0] == 'meth' and c[1] == 'count' and len(c) == 4 and decoded(c[2], v) and not mentions(c[3], v):
        return kind, v, seq
    return None


def strings_(e):
    return [x for a in e[3] for x in (a[1:] if a[0] == 'fstr' else (a,)) if x[0] != 'k']


def perfile(cx, p):
    s = symbolic(cx, p)
    es = [e for e in s.events if e[0] == 'print' and len(e[2]) == 1 and is_files(e[2][0][0])]
    if len(es) != 1:
        raise Undecided(f'{len(es)} places print the counts of a file')
    e = es[0]
    f = e[2][0][1]
    got = {}
    for x in strings_(e):
        if lost(x) and x[0] in ('lost', 'v'):
            raise Undecided('a count is not in closed form')
        o = occur(x, e[4])
        if o:
            path, _ = source(o[2], e[4])
            if path != f:
                raise Violation(f'the samples counted are those of {say(path)[:80]}', e[4])
            got[o[0]] = x
        elif x[0] == '+' and any(y in s.grow for y in x[1:]) and any(occur(y, e[4]) for y in x[1:]):
            raise Violation('what was counted for the files before is added to the counts of a file', e[4])
        elif x[0] == 'sum':
            raise Violation(f'a file is reported with {say(x)[:160]}', e[4])
        elif num(x) or x[0] in ('len', 'over'):
            raise Violation(f'a file is reported with {say(x)[:160]}', e[4])
    for k, w in (('n', 'occurrences'), ('s', 'samples with an occurrence')):
        if k not in got:
            raise Undecided(f'the number of {w} of a file is not recognised')
    c = cond(e)
    if c != K(True) and c not in (got['n'], got['s'], ('lt', ZERO, got['n']), ('lt', ZERO, got['s'])):
        if lost(c):
            raise Undecided('a condition is not recognised')
        raise Violation(f'a file is reported only if {say(c)[:160]}', e[4])
    return f'{len(got)} counts'


def totals(cx, p):
    s = symbolic(cx, p)
    es = [e for e in s.events if e[0] == 'print' and not e[2] and any(x[0] in ('sum', 'lost', '+', 'v', 'over') or num(x) for x in strings_(e))]
    if len(es) != 1:
        raise Undecided(f'{len(es)} places print the totals')
    e = es[0]
    got = set()
    for x in strings_(e):
        if lost(x):
            raise Undecided('a total is not in closed form')
        if x[0] == 'sum' and is_files(x[2]):
            o = occur(x[3], e[4])
            if o:
                path, _ = source(o[2], e[4])
                if path != x[1]:
                    raise Violation(f'the samples counted are those of {say(path)[:80]}', e[4])
                got.add(o[0])
                continue
            if x[3][0] == 'ite' and ZERO in leaves(x[3]):
                y = [l for l in leaves(x[3]) if l != ZERO]
                c = x[3][1]
                o = occur(y[0], e[4]) if len(y) == 1 else None
                if o and c[0] == 'lt' and c[1] == ZERO and occur(c[2], e[4]) and x[3][2] == y[0]:
                    got.add(o[0])
                    continue
            raise Violation(f'a total is {say(x)[:200]}', e[4])
        if x[0] == 'over':
            raise Violation(f'a total is overwritten at each step, by {say(x[3])[:120]}', e[4])
        if x[0] == 'sum' and x[2][0] == 'at':
            raise Violation(f'a total is over {say(x[2])[:80]}', e[4])
        if x[0] in ('sum', '+'):
            raise Violation(f'a total is {say(x)[:200]}', e[4])
    for k, w in (('n', 'occurrences'), ('s', 'samples with an occurrence')):
        if k not in got:
            raise Violation(f'the total of {w} is not reported', e[4])
    return f'{len(got)} totals'
