"""The dataset scripts (C32): paths through the syntax trees of scripts/*.py."""
import ast, re
from lib import Undecided, Violation
import dump, glob, os

FILTER = re.compile(r'filter|reject|skip|drop|discard|exclude', re.I)
LIMIT = 6000


# ------------------------------------------------------------ values
# ('k', const) | ('s', text) | ('dict', {key: v}) | ('seq', [v]) | ('open', path, mode, id) | ('fn', FunctionDef)
def S(t):
    return ('s', t)


def txt(v):
    if v[0] == 'k':
        return repr(v[1])
    if v[0] == 's':
        return v[1]
    if v[0] == 'seq':
        return '[' + ', '.join(txt(x) for x in v[1]) + ']'
    if v[0] == 'dict':
        return '{' + ', '.join(f'{k!r}: {txt(x)}' for k, x in v[1].items()) + '}'
    if v[0] == 'open':
        return f'open({txt(v[1])}, {txt(v[2])})'
    return f'<{v[0]}>'


class St:
    __slots__ = ('env', 'conds', 'ev')

    def __init__(self, env, conds, ev):
        self.env, self.conds, self.ev = env, conds, ev

    def copy(self):
        return St(dict(self.env), dict(self.conds), list(self.ev))

    def key(self):
        return (tuple(sorted((k, txt(v)) for k, v in self.env.items())), tuple(sorted(self.conds.items())), tuple(map(str, self.ev)))


class Py:
    """path enumeration in one script"""

    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path, encoding='utf-8').read())
        self.fns = {n.name: n for n in ast.walk(self.tree) if isinstance(n, ast.FunctionDef)}
        self.impure = {}
        self.steps = 0
        self.ids = 0
        self.depth = 0

    def where(self, n, fn=None):
        return f'{os.path.relpath(self.path, dump.REPO)}:{getattr(n, "lineno", 0)}' + (f' ({fn})' if fn else '')

    # writes or counts
    def effects(self, n, seen=()):
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('write', 'writelines'):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'open':
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.fns and x.func.id not in seen:
                f = self.fns[x.func.id]
                if f.name not in self.impure:
                    self.impure[f.name] = self.effects(f, seen + (f.name,)) or self.counts(f)
                if self.impure[f.name]:
                    return True
        return False

    def chooses(self, name):
        """picks among constants"""
        f = self.fns[name]
        rs = [x.value for x in ast.walk(f) if isinstance(x, ast.Return)]
        return bool(rs) and all(v is None or isinstance(v, ast.Constant) or isinstance(v, ast.IfExp) and isinstance(v.body, ast.Constant) and isinstance(v.orelse, ast.Constant) for v in rs) \
            and not any(isinstance(x, (ast.For, ast.While, ast.Try, ast.With)) for x in ast.walk(f))

    def counts(self, f):
        outer = {y for x in ast.walk(f) if isinstance(x, (ast.Nonlocal, ast.Global)) for y in x.names}
        for x in ast.walk(f):
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add):
                if isinstance(x.target, (ast.Subscript, ast.Attribute)) or isinstance(x.target, ast.Name) and x.target.id in outer:
                    return True
        return False

    # -------------------------------------------------------- expressions
    def ev(self, e, st):
        """value of an expression without effects"""
        if e is None:
            return ('k', None)
        if isinstance(e, ast.Constant):
            return ('k', e.value)
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return st.env[e.id]
            if e.id in self.fns:
                return ('fn', e.id)
            return S(e.id)
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return ('dict', {k.value: self.ev(v, st) for k, v in zip(e.keys, e.values)})
        if isinstance(e, (ast.List, ast.Tuple)):
            return ('seq', [self.ev(x, st) for x in e.elts])
        if isinstance(e, (ast.DictComp, ast.ListComp)) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            it = self.ev(e.generators[0].iter, st)
            if it[0] == 'dict':
                it = ('seq', [('k', k) for k in it[1]])
            if it[0] == 'seq':
                out = []
                for x in it[1]:
                    s = st.copy()
                    s.env[e.generators[0].target.id] = x
                    if isinstance(e, ast.DictComp):
                        k = self.ev(e.key, s)
                        if k[0] != 'k':
                            break
                        out.append((k[1], self.ev(e.value, s)))
                    else:
                        out.append(self.ev(e.elt, s))
                else:
                    return ('dict', dict(out)) if isinstance(e, ast.DictComp) else ('seq', out)
        if isinstance(e, ast.JoinedStr):
            parts, const = [], True
            for x in e.values:
                v = self.ev(x.value if isinstance(x, ast.FormattedValue) else x, st)
                if isinstance(x, ast.FormattedValue) and x.format_spec is not None:
                    const = False
                parts.append(str(v[1]) if v[0] == 'k' else '{' + txt(v) + '}')
                const = const and v[0] == 'k'
            s = ''.join(parts)
            return ('k', s) if const else S('f' + repr(s))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            if a[0] == b[0] == 'k' and type(a[1]) is type(b[1]) and isinstance(a[1], (str, bytes, int)):
                return ('k', a[1] + b[1])
            if a[0] == b[0] == 'seq':
                return ('seq', a[1] + b[1])
            return S(f'({txt(a)} + {txt(b)})')
        if isinstance(e, ast.Subscript):
            a, i = self.ev(e.value, st), self.ev(e.slice, st) if not isinstance(e.slice, ast.Slice) else S('slice')
            if a[0] == 'dict' and i[0] == 'k' and i[1] in a[1]:
                return a[1][i[1]]
            if a[0] == 'seq' and i[0] == 'k' and isinstance(i[1], int) and -len(a[1]) <= i[1] < len(a[1]):
                return a[1][i[1]]
            return S(f'{txt(a)}[{ast.unparse(e.slice) if isinstance(e.slice, ast.Slice) else txt(i)}]')
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'open' and 'open' not in st.env:
                m = self.ev(e.args[1], st) if len(e.args) > 1 else next((self.ev(k.value, st) for k in e.keywords if k.arg == 'mode'), ('k', 'r'))
                self.ids += 1
                return ('open', self.ev(e.args[0], st), m, self.ids)
            if isinstance(f, ast.Name) and f.id == 'dict' and not e.args and all(k.arg for k in e.keywords):
                return ('dict', {k.arg: self.ev(k.value, st) for k in e.keywords})
            if isinstance(f, ast.Attribute) and f.attr == 'enter_context' and len(e.args) == 1:
                return self.ev(e.args[0], st)
            if isinstance(f, ast.Attribute) and f.attr in ('join',) and ast.unparse(f.value) == 'os.path':
                return self.joined([self.ev(a, st) for a in e.args])
            if isinstance(f, ast.Attribute):
                o = self.ev(f.value, st)
                if o[0] == 'dict' and f.attr in ('values', 'keys', 'items') and not e.args:
                    return ('seq', [v for v in o[1].values()] if f.attr == 'values' else [('k', k) for k in o[1]] if f.attr == 'keys' else [('seq', [('k', k), v]) for k, v in o[1].items()])
                if o[0] == 'dict' and f.attr == 'get' and e.args:
                    i = self.ev(e.args[0], st)
                    if i[0] == 'k' and i[1] in o[1]:
                        return o[1][i[1]]
                name = txt(o) + '.' + f.attr
            else:
                v = self.ev(f, st)
                name = v[1] if v[0] == 'fn' else txt(v)
            return S(name + '(' + ', '.join([txt(self.ev(a, st)) for a in e.args if not isinstance(a, ast.Starred)] + [f'{k.arg}={txt(self.ev(k.value, st))}' for k in e.keywords]) + ')')
        if isinstance(e, ast.Attribute):
            return S(txt(self.ev(e.value, st)) + '.' + e.attr)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.ev(e.operand, st)
            return ('k', not v[1]) if v[0] == 'k' else S('not ' + txt(v))
        # anything else: its text with the variables replaced
        return S(self.subst(e, st))

    def joined(self, vs):
        out = []
        for v in vs:
            out.append(str(v[1]) if v[0] == 'k' else v[1][2:-1] if v[0] == 's' and v[1].startswith("f'") else '{' + txt(v) + '}')
        s = '/'.join(out)
        return ('k', s) if all(v[0] == 'k' for v in vs) else S('f' + repr(s))

    def subst(self, e, st):
        bound = {x.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        me = self

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in st.env and n.id not in bound:
                    v = st.env[n.id]
                    return ast.copy_location(ast.Name(id=txt(v) if v[0] in ('k',) else '(' + txt(v) + ')', ctx=ast.Load()), n)
                return n
        import copy
        return ast.unparse(R().visit(copy.deepcopy(e)))

    # -------------------------------------------------------- conditions
    def cond(self, e, st):
        """[(state, truth)]"""
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, cur = [], [st]
            for x in e.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(x, s):
                        (out.append((s2, b)) if b == stop else nxt.append(s2))
                cur = nxt
            return out + [(s, not stop) for s in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            l, parts = e.left, []
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.Compare(left=l, ops=[op], comparators=[r]))
                l = r
            return self.cond(ast.BoolOp(op=ast.And(), values=parts), st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.fns and (self.effects(e) or self.chooses(e.func.id)):
            out = []
            for s, v in self.call(e, st):
                out += self.fork('bool', v, s)
            return out
        if isinstance(e, ast.Compare):
            a, b = self.ev(e.left, st), self.ev(e.comparators[0], st)
            op = type(e.ops[0]).__name__
            if a[0] == 'k' and b[0] == 'k':
                try:
                    return [(st, eval(f'x {OPS[op]} y', {}, dict(x=a[1], y=b[1])))]
                except Exception:
                    pass
            if a[0] == 'k' and b[0] in ('seq', 'dict') and op in ('In', 'NotIn') and (b[0] == 'dict' or all(x[0] == 'k' for x in b[1])):
                i = a[1] in (b[1] if b[0] == 'dict' else [x[1] for x in b[1]])
                return [(st, i == (op == 'In'))]
            if op in ('Is', 'IsNot') and b == ('k', None) and a[0] in ('open', 'dict', 'seq', 'fn'):
                return [(st, op == 'IsNot')]
            neg = False
            if op in NEG:
                op, neg = NEG[op], True
            if op == 'Gt':
                op, a, b = 'Lt', b, a
            if op == 'LtE':       # a <= b is not b < a
                op, a, b, neg = 'Lt', b, a, not neg
            if op in ('Eq', 'Is') and txt(a) > txt(b):
                a, b = b, a
            if op == 'Is':
                op = 'Eq'
            return [(s, t != neg) for s, t in self.fork(f'{txt(a)} {op} {txt(b)}', None, st)]
        return self.fork('bool', self.ev(e, st), st)

    def fork(self, key, v, st):
        if v is not None:
            if v[0] == 'k':
                return [(st, bool(v[1]))]
            if v[0] in ('open', 'fn'):
                return [(st, True)]
            if v[0] in ('seq', 'dict'):
                return [(st, bool(v[1]))]
            if v[1].startswith('not '):
                return [(s, not b) for s, b in self.fork('bool', S(v[1][4:]), st)]
            key = 'bool ' + txt(v)
        if key in st.conds:
            return [(st, st.conds[key])]
        out = []
        for b in (True, False):
            s = st.copy()
            s.conds[key] = b
            out.append((s, b))
        return out

    # -------------------------------------------------------- statements
    def vals(self, e, st):
        """[(state, value)] of an expression that may call a function of the script or choose"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('write', 'writelines'):
            out = []
            for s, o in self.vals(e.func.value, st):
                s = s.copy()
                v = self.ev(e.args[0], s) if e.args else S('')
                if e.func.attr == 'writelines' and v[0] == 'seq':
                    for x in v[1]:
                        s.ev.append(('write', o, x, e.lineno))
                else:
                    s.ev.append(('write', o, v, e.lineno))
                out.append((s, S(f'written@{e.lineno}')))
            return out
        if isinstance(e, ast.IfExp):
            return [x for s, b in self.cond(e.test, st) for x in self.vals(e.body if b else e.orelse, s)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.fns and (self.effects(e) or self.chooses(e.func.id)):
            return self.call(e, st)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.IfExp):
            return [x for s, b in self.cond(e.slice.test, st) for x in self.vals(ast.Subscript(value=e.value, slice=e.slice.body if b else e.slice.orelse, ctx=ast.Load()), s)]
        if isinstance(e, (ast.BoolOp, ast.Compare)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            if not isinstance(e, ast.BoolOp) or all(isinstance(x, (ast.Compare, ast.UnaryOp)) for x in e.values):
                return [(s, ('k', b)) for s, b in self.cond(e, st)]
        if e is not None:
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('write', 'writelines'):
                    raise Undecided(f'{self.where(e)}: a write inside an expression')
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.fns and x is not e:
                    f = self.fns[x.func.id]
                    if self.effects(ast.Expr(value=x)):
                        raise Undecided(f'{self.where(e)}: {x.func.id} has effects inside an expression')
        return [(st, self.ev(e, st))]

    def call(self, e, st):
        f = self.fns[e.func.id]
        if self.depth > 4:
            raise Undecided(f'{self.where(e)}: recursion')
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for n, x in zip(names, e.args):
            if isinstance(x, ast.Starred):
                raise Undecided(f'{self.where(e)}: starred argument')
            vals[n] = self.ev(x, st)
        for k in e.keywords:
            if k.arg is None:
                raise Undecided(f'{self.where(e)}: starred argument')
            vals[k.arg] = self.ev(k.value, st)
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            vals.setdefault(n, self.ev(d, st))
        outer = {y for x in ast.walk(f) if isinstance(x, (ast.Nonlocal, ast.Global)) for y in x.names}
        s0 = st.copy()
        save = s0.env
        s0.env = dict(save)
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in outer:
                s0.env.pop(x.id, None)
        s0.env.update(vals)
        self.depth += 1
        out = []
        for s, k, v in self.block(f.body, s0):
            env = dict(save)
            for n in outer:
                if n in s.env:
                    env[n] = s.env[n]
            s.env = env
            if k == 'raise':
                continue
            out.append((s, v if k == 'ret' else ('k', None)))
        self.depth -= 1
        return out

    def block(self, body, st):
        """[(state, how it ends, value)] ; how: end, cont, brk, ret, raise"""
        cur, out = [st], []
        for n in body:
            nxt, seen = [], set()
            for s in cur:
                for s2, k, v in self.stmt(n, s):
                    self.steps += 1
                    if self.steps > LIMIT:
                        raise Undecided(f'{self.where(n)}: too many paths')
                    if k == 'end':
                        kk = s2.key()
                        if kk not in seen:
                            seen.add(kk)
                            nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            cur = nxt
        return out + [(s, 'end', None) for s in cur]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, v[1][i] if v[0] == 'seq' and i < len(v[1]) else S(f'{txt(v)}[{i}]'), st)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            d = st.env.get(t.value.id)
            k = self.ev(t.slice, st) if not isinstance(t.slice, ast.Slice) else S('slice')
            if d and d[0] == 'dict' and k[0] == 'k':
                nd = dict(d[1])
                nd[k[1]] = v
                st.env[t.value.id] = ('dict', nd)
            elif d:
                st.env[t.value.id] = S(f'{t.value.id}@{t.lineno}')

    def stmt(self, n, st):
        end = lambda s: [(s, 'end', None)]
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Nonlocal, ast.Global, ast.Assert, ast.Delete)):
            return end(st)
        if isinstance(n, ast.Assign) or isinstance(n, ast.AnnAssign):
            out = []
            for s, v in self.vals(n.value, st):
                s = s.copy()
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    # x = x + 1
                    if isinstance(t, (ast.Name, ast.Subscript)) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and ast.dump(n.value.left).replace('Load', 'Store') == ast.dump(t) and self.ev(n.value.right, s) == ('k', 1):
                        s.ev.append(('count', ast.unparse(t), n.lineno))
                    self.assign(t, v, s)
                out += end(s)
            return out
        if isinstance(n, ast.AugAssign):
            out = []
            for s, v in self.vals(n.value, st):
                s = s.copy()
                if isinstance(n.op, ast.Add) and v == ('k', 1):
                    s.ev.append(('count', self.target(n.target, s), n.lineno))
                if isinstance(n.target, ast.Name):
                    o = s.env.get(n.target.id, S(n.target.id))
                    if o[0] == 'k' and v[0] == 'k' and isinstance(n.op, ast.Add) and type(o[1]) is type(v[1]) and len(str(o[1])) < 200 and not isinstance(o[1], bool):
                        s.env[n.target.id] = ('k', o[1] + v[1])
                    else:
                        s.env[n.target.id] = S(f'{n.target.id}@{n.lineno}')
                out += end(s)
            return out
        if isinstance(n, ast.Expr):
            return self.expr(n.value, st)
        if isinstance(n, ast.If):
            out = []
            for s, b in self.cond(n.test, st):
                out += self.block(n.body if b else n.orelse, s)
            return out
        if isinstance(n, (ast.For, ast.While)):
            return self.loop(n, st)
        if isinstance(n, ast.With):
            s = st.copy()
            for i in n.items:
                v = self.ev(i.context_expr, s)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            return self.block(n.body, s)
        if isinstance(n, ast.Try):
            out = []
            for s, k, v in self.block(n.body, st):
                if k == 'end' and n.orelse:
                    out += self.block(n.orelse, s)
                else:
                    out.append((s, k, v))
            for h in n.handlers:
                s = st.copy()
                self.havoc(n.body, s)
                if any(self.effects(x) for x in n.body):
                    raise Undecided(f'{self.where(n)}: writes inside try')
                out += self.block(h.body, s)
            if n.finalbody:
                o2 = []
                for s, k, v in out:
                    for s2, k2, v2 in self.block(n.finalbody, s):
                        o2.append((s2, k, v) if k2 == 'end' else (s2, k2, v2))
                out = o2
            return out
        if isinstance(n, ast.Return):
            return [(s, 'ret', v) for s, v in self.vals(n.value, st)]
        if isinstance(n, ast.Continue):
            return [(st, 'cont', None)]
        if isinstance(n, ast.Break):
            return [(st, 'brk', None)]
        if isinstance(n, ast.Raise):
            return [(st, 'raise', None)]
        raise Undecided(f'{self.where(n)}: {type(n).__name__} is not modelled')

    def target(self, t, st):
        if isinstance(t, ast.Subscript):
            return f'{ast.unparse(t.value)}[{txt(self.ev(t.slice, st)) if not isinstance(t.slice, ast.Slice) else ""}]'
        return ast.unparse(t)

    def expr(self, e, st):
        if isinstance(e, ast.Call) and any(k.arg == 'file' for k in e.keywords):
            raise Undecided(f'{self.where(e)}: print to a file is not modelled')
        return [(s, 'end', None) for s, _ in self.vals(e, st)]

    def havoc(self, body, st):
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    st.env[x.id] = S(f'{x.id}@{b.lineno}')

    def loop(self, n, st):
        if isinstance(n, ast.For):
            it = self.ev(n.iter, st)
            if it[0] == 'dict':
                it = ('seq', [('k', k) for k in it[1]])
            if it[0] == 'seq' and len(it[1]) <= 8 and (self.effects(n) or len(it[1]) <= 4):
                cur, out = [st], []
                for x in it[1]:
                    nxt = []
                    for s in cur:
                        s = s.copy()
                        self.assign(n.target, x, s)
                        for s2, k, v in self.block(n.body, s):
                            if k in ('end', 'cont'):
                                nxt.append(s2)
                            elif k == 'brk':
                                out.append((s2, 'end', None))
                            else:
                                out.append((s2, k, v))
                    cur = nxt
                for s in cur:
                    out += self.block(n.orelse, s)
                return out
        if self.effects(n):
            raise Undecided(f'{self.where(n)}: a loop that writes is not the sample loop')
        # an inner loop without effects: any number of iterations, tracked by the constants it sets
        stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        work, seen, out = [st], set(), []
        first = True
        while work:
            s0 = work.pop()
            key = (tuple(sorted((k, txt(s0.env[k])) for k in stored if k in s0.env)), str(s0.ev), tuple(sorted(s0.conds.items())))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 12:
                raise Undecided(f'{self.where(n)}: loop state too rich')
            # leave
            infinite = isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value
            if not infinite:
                s = s0.copy()
                for k in stored:
                    if s.env.get(k, ('k',))[0] != 'k':
                        s.env[k] = S(f'{k}@{n.lineno}')
                out += self.block(n.orelse, s)
            s = s0.copy()
            for k in stored:
                if k in s.env and s.env[k][0] != 'k':
                    s.env[k] = S(f'{k}@@{n.lineno}')
                elif k in s.env and not isinstance(s.env[k][1], (bool, type(None))):
                    s.env[k] = S(f'{k}@@{n.lineno}')
            if isinstance(n, ast.For):
                self.assign(n.target, S(f'item@{n.lineno}'), s)
            base = dict(s.conds)
            for s2, k, v in self.block(n.body, s):
                # what held for this iteration's item says nothing about the next one
                loc = lambda c: any(re.search(rf'\b{x}@|item@{n.lineno}', c) for x in stored)
                s2.conds = {c: b for c, b in s2.conds.items() if c in base or not loc(c)}
                if k in ('end', 'cont'):
                    for kk in stored:
                        if kk in s2.env and (s2.env[kk][0] != 'k' or not isinstance(s2.env[kk][1], (bool, type(None)))):
                            s2.env[kk] = S(f'{kk}@@{n.lineno}')
                    work.append(s2)
                elif k == 'brk':
                    out.append((s2, 'end', None))
                else:
                    out.append((s2, k, v))
        return out


OPS = dict(Eq='==', NotEq='!=', Lt='<', LtE='<=', Gt='>', GtE='>=', In='in', NotIn='not in', Is='is', IsNot='is not')
NEG = dict(NotEq='Eq', GtE='Lt', NotIn='In', IsNot='Is')


# ------------------------------------------------------------ the rules
def scripts():
    return sorted(glob.glob(os.path.join(dump.REPO, 'scripts', '*.py')))


def c32(cx):
    ps = scripts()
    for p in ps:
        n = os.path.basename(p)
        src = open(p, encoding='utf-8').read()
        if 'argparse' in src:
            cx.ob('options:' + n, 'every option the script reads is declared under that name', options, cx, p)
    try:
        py = Py(os.path.join(dump.REPO, 'scripts', 'datagen.py'))
    except (OSError, SyntaxError) as ex:
        cx.ob('dataset', 'the dataset script can be analysed', lambda: (_ for _ in ()).throw(Undecided(str(ex))))
        return
    fs = sampled(py)
    if not fs:
        cx.ob('dataset', 'the dataset script can be analysed', lambda: (_ for _ in ()).throw(Undecided('no function that writes samples')))
    for f in fs:
        cx.ob('split:' + f.name, 'on every path through the loop a sample goes to the file of one split, once, unless it was rejected or the quota is reached', splits, cx, py, f)
        cx.ob('rejected:' + f.name, 'a sample counted as rejected is not written', rejected, cx, py, f)
        cx.ob('files:' + f.name, 'each split has its own file, named after it', files, cx, py, f)
    cx.ob('called', 'every invocation of a script in the repository passes options it declares', called, cx)


def sampled(py):
    """functions with a loop that writes"""
    out = []
    for f in py.tree.body:
        if isinstance(f, ast.FunctionDef):
            ls = [l for l in ast.walk(f) if isinstance(l, (ast.For, ast.While)) and py.effects(l) and writes(py, l)]
            if ls and opens(py, f):
                out.append(f)
    return out


def opens(py, f, seen=()):
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
            if x.func.id == 'open':
                return True
            if x.func.id in py.fns and x.func.id not in seen and opens(py, py.fns[x.func.id], seen + (x.func.id,)):
                return True
    return False


def writes(py, n, seen=()):
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('write', 'writelines'):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in py.fns and x.func.id not in seen and writes(py, py.fns[x.func.id], seen + (x.func.id,)):
            return True
    return False


def paths(cx, py, f):
    """the paths of one iteration of the loop that writes samples"""
    key = ('py', f.name)
    if key in cx.cache:
        if isinstance(cx.cache[key], Exception):
            raise cx.cache[key]
        return cx.cache[key]
    try:
        r = paths_(py, f)
    except Undecided as ex:
        cx.cache[key] = ex
        raise
    cx.cache[key] = r
    cx.analysed[f'{os.path.relpath(py.path, dump.REPO)}::{f.name}'] = 0
    cx.loops += 1
    return r


def paths_(py, f):
    py.steps = 0
    body, st = list(f.body), St({a.arg: S(a.arg) for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}, {}, [])
    while True:
        hit = None
        for i, n in enumerate(body):
            if writes(py, n) and not isinstance(n, ast.FunctionDef):
                hit = i
                break
        if hit is None:
            raise Undecided(f'{py.where(f)}: the loop was not found')
        ends = [(s, k) for s, k, v in py.block(body[:hit], st) if k == 'end']
        if not ends:
            raise Undecided(f'{py.where(f)}: nothing reaches the loop')
        st = ends[0][0]
        for s, _ in ends[1:]:
            # keep what all paths agree on
            for k in list(st.env):
                if k not in s.env or txt(s.env[k]) != txt(st.env[k]) and st.env[k][0] != 'open':
                    st.env[k] = S(k + '@pre')
        st.conds, st.ev = {}, []
        n = body[hit]
        if isinstance(n, (ast.With,)):
            for i in n.items:
                if i.optional_vars is not None:
                    py.assign(i.optional_vars, py.ev(i.context_expr, st), st)
            body = list(n.body)
            continue
        if isinstance(n, ast.Try):
            body = list(n.body)
            continue
        if isinstance(n, (ast.For, ast.While)):
            break
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in py.fns:
            # the loop is in a helper
            g = py.fns[n.value.func.id]
            names = [a.arg for a in g.args.posonlyargs + g.args.args]
            env = {k: py.ev(v, st) for k, v in zip(names, n.value.args)}
            for k in n.value.keywords:
                env[k.arg] = py.ev(k.value, st)
            for a in names:
                env.setdefault(a, S(a))
            body, st = list(g.body), St(env, {}, [])
            continue
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in py.fns:
            g = py.fns[n.value.func.id]
            names = [a.arg for a in g.args.posonlyargs + g.args.args]
            env = {k: py.ev(v, st) for k, v in zip(names, n.value.args)}
            for k in n.value.keywords:
                env[k.arg] = py.ev(k.value, st)
            for a in names:
                env.setdefault(a, S(a))
            body, st = list(g.body), St(env, {}, [])
            continue
        raise Undecided(f'{py.where(n)}: samples are written outside a loop')
    loop = n
    pre = st.copy()
    # generic iteration
    stored = {x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    # names a nested function of the script changes from within
    for g in py.fns.values():
        stored |= {y for x in ast.walk(g) if isinstance(x, (ast.Nonlocal, ast.Global)) for y in x.names}
    for k in stored:
        if k in st.env:
            st.env[k] = S(k + '@loop') if st.env[k][0] != 'dict' or not all(v[0] == 'open' for v in st.env[k][1].values()) else st.env[k]
    if isinstance(loop, ast.For):
        py.assign(loop.target, S('sample'), st)
        tops = [(st, True)]
    else:
        tops = [(s, b) for s, b in py.cond(loop.test, st) if b]
    out = []
    for s, b in tops:
        out += py.block(loop.body, s)
    return loop, pre, out


def payload(v):
    """not just a separator"""
    return not (v[0] == 'k' and isinstance(v[1], (bytes, str)) and len(v[1]) <= 1)


def fname(o):
    return txt(o)


def splits(cx, py, f):
    loop, pre, ps = paths(cx, py, f)
    always = every(ps)
    for s, k, v in ps:
        w = [e for e in s.ev if e[0] == 'write']
        for e in w:
            if e[1][0] != 'open':
                raise Undecided(f'{py.where(loop)}: the file written is not recognised: {txt(e[1])[:80]}')
        fs = {e[1][3]: e[1] for e in w}
        if len(fs) > 1:
            raise Violation(f'a sample is written to {" and to ".join(txt(x[1]) for x in fs.values())}' + when(s), py.where(loop, f.name))
        p = [e for e in w if payload(e[2])]
        if len(p) > 1 and not chunked(p):
            raise Violation(f'a sample is written {len(p)} times' + when(s), py.where(loop, f.name))
        sep = [e for e in w if not payload(e[2])]
        if p and len(sep) > 1:
            raise Violation(f'a sample is followed by {len(sep)} separators' + when(s), py.where(loop, f.name))
        if p and not sep and not any("\\x00" in txt(e[2]) or '\\0' in txt(e[2]) for e in p):
            raise Violation('a sample is not separated from the next' + when(s), py.where(loop, f.name))
        if sep and not p:
            raise Violation('a separator is written without a sample' + when(s), py.where(loop, f.name))
        if k in ('end', 'cont') and not p and not any(e[0] == 'count' and e[1] not in always for e in s.ev):
            raise Violation('a sample is neither written nor counted as rejected' + when(s), py.where(loop, f.name))
    return f'{len(ps)} paths'


def chunked(p):
    """different parts of one sample"""
    return len({txt(e[2]) for e in p}) == len(p) and len(p) > 1 and all('[' in txt(e[2]) for e in p)


def when(s):
    c = [k if v else f'not ({k})' for k, v in list(s.conds.items())[-4:]]
    return (' when ' + ', '.join(c))[:300] if c else ''


def every(ps):
    """counters of all samples"""
    a = None
    for s, k, v in ps:
        c = {e[1] for e in s.ev if e[0] == 'count'}
        a = c if a is None else a & c
    return a or set()


def counted(s, always):
    return [e for e in s.ev if e[0] == 'count' and FILTER.search(e[1]) and e[1] not in always]


def rejected(cx, py, f):
    loop, pre, ps = paths(cx, py, f)
    always = every(ps)
    n = set()
    for s, k, v in ps:
        c = counted(s, always or set())
        n |= {e[1] for e in c}
        w = [e for e in s.ev if e[0] == 'write']
        if c and w:
            raise Violation(f'a sample counted in {c[0][1]} (line {c[0][2]}) is written (line {w[0][3]})' + when(s), py.where(loop, f.name))
    return f'{len(ps)} paths, {len(n)} counters'


def files(cx, py, f):
    loop, pre, ps = paths(cx, py, f)
    seen = {}
    for s, k, v in ps:
        for e in s.ev:
            if e[0] == 'write' and e[1][0] == 'open':
                seen[e[1][3]] = e[1]
    if not seen:
        raise Undecided('no file is written')
    txts = {}
    for i, o in seen.items():
        p = txt(o[1])
        if o[2][0] == 'k' and str(o[2][1])[:1] not in ('w', 'x', 'a'):
            raise Violation(f'{p} is opened with mode {o[2][1]}', py.where(f, f.name))
        if p in txts:
            raise Violation(f'two splits share the file {p}', py.where(f, f.name))
        txts[p] = i
    names = {}
    for v in pre.env.values():
        if v[0] == 'dict':
            for k, x in v[1].items():
                if x[0] == 'open' and x[3] in seen:
                    names[x[3]] = k
    for i, k in names.items():
        p = txt(seen[i][1])
        other = [y for y in names.values() if y != k]
        if isinstance(k, str) and k not in p and any(isinstance(y, str) and y in p for y in other):
            raise Violation(f'the {k} split is written to {p}', py.where(f, f.name))
    if len(seen) != 2:
        raise Violation(f'samples go to {len(seen)} files: {", ".join(txts)}', py.where(f, f.name))
    for w in ('train', 'test'):
        if not any(w in p for p in txts):
            raise Violation(f'no file of the {w} split is written: {", ".join(txts)}', py.where(f, f.name))
    # the quota that ends a split is its own
    return ', '.join(sorted(txts))[:200]


# ------------------------------------------------------------ options
NS = {'__dict__', '__class__'}


def declared(tree):
    out, opts = set(), set()
    parsers = False
    for c in ast.walk(tree):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'add_argument':
            parsers = True
            names = []
            for a in c.args:
                if not (isinstance(a, ast.Constant) and isinstance(a.value, str)):
                    raise Undecided(f'line {c.lineno}: the name of an option is computed')
                names.append(a.value)
            dest = next((k.value for k in c.keywords if k.arg == 'dest'), None)
            opts |= {n for n in names if n.startswith('-')}
            if dest is not None:
                if not isinstance(dest, ast.Constant):
                    raise Undecided(f'line {c.lineno}: the destination of an option is computed')
                out.add(dest.value)
                continue
            long_ = [n for n in names if n.startswith('--')]
            if not names:
                raise Undecided(f'line {c.lineno}: an option without a name')
            n = long_[0] if long_ else names[0]
            out.add(n.lstrip('-').replace('-', '_') if n.startswith('-') else n)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'add_subparsers':
            d = next((k.value for k in c.keywords if k.arg == 'dest'), None)
            if isinstance(d, ast.Constant):
                out.add(d.value)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'set_defaults':
            out |= {k.arg for k in c.keywords if k.arg}
    return (out, opts) if parsers else (None, None)


def options(cx, p):
    tree = ast.parse(open(p, encoding='utf-8').read())
    dests, _ = declared(tree)
    if dests is None:
        raise Undecided('no parser')
    rel = os.path.relpath(p, dump.REPO)
    fns = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
    # names holding the parsed options, per scope
    hold = {None: set()}
    scope = {}

    def mark(n, fn):
        for c in ast.iter_child_nodes(n):
            scope[c] = fn
            mark(c, c.name if isinstance(c, ast.FunctionDef) else fn)
    mark(tree, None)
    ch = True
    while ch:
        ch = False

        def add(fn, n):
            nonlocal ch
            if n not in hold.setdefault(fn, set()):
                hold[fn].add(n)
                ch = True

        def isopts(e, fn):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('parse_args', 'parse_intermixed_args'):
                return True
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == 'parse_known_args':
                return True
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in fns:
                return any(isinstance(r, ast.Return) and r.value is not None and scope.get(r) == e.func.id and isopts(r.value, e.func.id) for r in ast.walk(fns[e.func.id]))
            return isinstance(e, ast.Name) and (e.id in hold.get(fn, ()) or e.id in hold[None] and not bound(fns.get(fn), e.id))
        for n in ast.walk(tree):
            fn = scope.get(n)
            if isinstance(n, ast.Assign) and isopts(n.value, fn):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        add(fn, t.id)
            if isinstance(n, ast.Call):
                f, args = n.func, n.args
                kw = {k.arg: k.value for k in n.keywords}
                if not (isinstance(f, ast.Name) and f.id in fns) and isinstance(kw.get('target'), ast.Name) and isinstance(kw.get('args'), (ast.Tuple, ast.List)):
                    f, args = kw['target'], kw['args'].elts
                if isinstance(f, ast.Name) and f.id in fns:
                    ps = [a.arg for a in fns[f.id].args.posonlyargs + fns[f.id].args.args]
                    for a, x in zip(ps, args):
                        if isopts(x, fn):
                            add(f.id, a)
                    for k, x in kw.items():
                        if k in ps and isopts(x, fn):
                            add(f.id, k)
    reads = 0
    wr = {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isopts(n.value, scope.get(n))}
    for n in ast.walk(tree):
        fn = scope.get(n)
        name = None
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isopts(n.value, fn):
            name = n.attr
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) in (2, 3) and isopts(n.args[0], fn) and isinstance(n.args[1], ast.Constant):
            name = n.args[1].value
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'vars' and n.value.args and isopts(n.value.args[0], fn) and isinstance(n.slice, ast.Constant):
            name = n.slice.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'vars' and n.func.value.args and isopts(n.func.value.args[0], fn) and n.args and isinstance(n.args[0], ast.Constant):
            name = n.args[0].value
        if name is None or name in NS:
            continue
        reads += 1
        if name not in dests | wr:
            raise Violation(f'the option {name} is read and not declared (declared: {", ".join(sorted(dests))})', f'{rel}:{n.lineno}' + (f' ({fn})' if fn else ''))
    return f'{reads} reads of {len(dests)} options'


def bound(f, n):
    if f is None:
        return False
    a = f.args
    return n in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n for x in ast.walk(f))


def called(cx):
    n = 0
    docs = [os.path.join(dump.REPO, x) for x in ('README.md', 'bindings/python/README.md')] + glob.glob(dump.REPO + '/docs/*.md') + glob.glob(dump.REPO + '/scripts/*.sh')
    for d in sorted(docs):
        if not os.path.exists(d):
            continue
        t = open(d, encoding='utf-8').read().replace('\\\n', ' ')
        for ln, line in enumerate(t.split('\n'), 1):
            m = re.search(r'python3? (?:\./)?scripts/(\w+)\.py(.*)', line)
            if not m:
                continue
            p = os.path.join(dump.REPO, 'scripts', m.group(1) + '.py')
            rel = os.path.relpath(d, dump.REPO)
            if not os.path.exists(p):
                raise Violation(f'{m.group(1)}.py does not exist', rel)
            _, opts = declared(ast.parse(open(p, encoding='utf-8').read()))
            if opts is None:
                continue
            n += 1
            for o in re.findall(r'(?<!\S)(--?[A-Za-z][\w-]*)', re.sub(r'"[^"]*"|\'[^\']*\'', 'X', m.group(2))):
                if o not in opts and not any(x.startswith(o) and o.startswith('--') for x in opts):
                    raise Violation(f'{m.group(1)}.py is called with the option {o}, which it does not declare', rel)
    return f'{n} invocations'
