"""Bundled scripts, the example and the documented commands against the interfaces they use (C36)."""
import ast, glob, os, re, shlex
from lib import Undecided, Violation
import dump
import binding

FL = 'tokengeex::flags::'
FENCE = re.compile(r'^```(?:bash|sh|shell|console)[ \t]*\n(.*?)^```', re.S | re.M)
USAGE = re.compile(r'^```[ \t]*\n(tokengeex (\S+)\n.*?)^```', re.S | re.M)


def rel(p):
    return os.path.relpath(p, dump.REPO)


def read(p):
    return open(p, encoding='utf-8').read()


def pyfiles():
    return sorted(glob.glob(dump.REPO + '/scripts/*.py') + glob.glob(dump.REPO + '/bindings/python/*.py') + glob.glob(dump.REPO + '/bindings/python/examples/*.py'))


def docs():
    fs = [dump.REPO + '/README.md', dump.REPO + '/bindings/python/README.md'] + glob.glob(dump.REPO + '/docs/*.md') + glob.glob(dump.REPO + '/scripts/*.sh')
    return sorted(f for f in fs if os.path.exists(f))


def c36(cx):
    for p in pyfiles():
        if 'tokengeex' in imports(p):
            cx.ob('calls:' + rel(p), 'every use of the package names something it exports and passes what it takes', calls, cx, p)
    for p in docs():
        if cmdlines(p):
            cx.ob('commands:' + rel(p), 'every documented invocation of the tool is one its parser accepts', commands, cx, p)
        if not p.endswith('.sh') and usages(p):
            cx.ob('options:' + rel(p), 'every documented option is one the subcommand declares, under both its names', usage, cx, p)
    cx.ob('log', 'what is plotted is what an evaluation writes', log, cx)


# ------------------------------------------------------------ the package's Python interface
class Api:
    pass


def api(cx):
    if 'api' in cx.cache:
        return cx.cache['api']
    a = Api()
    a.methods = {}
    for n, m in binding.items(cx).items():
        o = a.methods[n] = Api()
        o.names, o.required = m.names, m.required
        o.kwonly = [(binding.text(x.args[2][0]), required(x.args[2][1])) for x in m.kwonly if x.op == 'agg']
        r = binding.run(cx, m)
        o.static = binding.selfarg(cx, r) is None
        o.ret = binding.pyty(m.body, binding.retty(m.body))
        o.where = f'{m.path} ({m.body["file"]}:{m.body["line"]})'
    a.exports = exports(cx)
    cx.cache['api'] = a
    return a


def required(t):
    if t.op == 'k':
        return bool(t.args[0])
    return str(getattr(t, 'op', '')) == 'true' or t is binding.TRUE


def exports(cx):
    """names the module can have: every constant text of the bindings that is a name"""
    out = set()
    for b in cx.prog.bodies.values():
        if b['crate'].id == binding.PY:
            walk_strings(b['body'], out)
    return {'Tokenizer', 'TokenGeeXError'} | {s.rstrip('\0') for s in out if s.rstrip('\0').isidentifier()}


def walk_strings(n, out):
    if isinstance(n, dict):
        v = n.get('v')
        if isinstance(v, dict) and v.get('t') == 'str' and isinstance(v.get('v'), str):
            out.add(v['v'])
        for x in n.values():
            walk_strings(x, out)
    elif isinstance(n, list):
        for x in n:
            walk_strings(x, out)


def imports(p):
    out = set()
    for n in ast.walk(ast.parse(read(p))):
        if isinstance(n, ast.Import):
            out |= {a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            out.add(n.module.split('.')[0])
    return out


# kinds of values: MOD the module, CLS the class, INST an instance, ('m', name) a bound method,
# ('f', name) a function of the class, EXC the exception, None anything else
MOD, CLS, INST, EXC = 'module', 'class', 'instance', 'exception'


class Uses:
    def __init__(self, cx, path):
        self.cx, self.path = cx, path
        self.api = api(cx)
        self.n = 0

    def where(self, n):
        return f'{rel(self.path)}:{n.lineno}'

    # statements
    def block(self, body, env):
        """the environment after a block; bodies of functions see the names as they are when the block ends"""
        late = []
        for s in body:
            self.stmt(s, env, late)
        for f in late:
            e = dict(env)
            for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
                e[a.arg] = self.ann(a.annotation, env)
            for a in (f.args.vararg, f.args.kwarg):
                if a:
                    e[a.arg] = None
            for n in ast.walk(f):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    for x in n.names:
                        e[x] = None
            self.block(f.body, e)
        return env

    def ann(self, a, env):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode='eval').body
            except SyntaxError:
                return None
        k = self.expr(a, dict(env), quiet=True) if isinstance(a, (ast.Name, ast.Attribute)) else None
        return INST if k == CLS else None

    def join(self, envs):
        out = {}
        for k in set().union(*envs):
            vs = {e.get(k) for e in envs}
            if len(vs) == 1:
                out[k] = vs.pop()
                continue
            # a method on one of the ways here is one there
            ms = [v for v in vs if isinstance(v, tuple)]
            out[k] = ('alt', ms[0][1]) if ms else None
        return out

    def stmt(self, s, env, late):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, env)
            env[s.name] = None
            late.append(s)
        elif isinstance(s, ast.ClassDef):
            env[s.name] = None
            self.block(s.body, dict(env))
        elif isinstance(s, ast.Import):
            for a in s.names:
                env[(a.asname or a.name).split('.')[0]] = MOD if a.name == 'tokengeex' else None
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                if s.module == 'tokengeex' and not s.level:
                    self.n += 1
                    if a.name != '*':
                        env[a.asname or a.name] = self.member(a.name, s)
                else:
                    env[a.asname or a.name] = None
        elif isinstance(s, ast.Assign):
            k = self.expr(s.value, env)
            for t in s.targets:
                self.bind(t, k, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            k = self.expr(s.value, env) if s.value else None
            self.bind(s.target, k or self.ann(s.annotation, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            self.number(s.value, self.expr(s.value, env))
            self.bind(s.target, None, env, None)
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ends = [e for e, bd in ((a, s.body), (b, s.orelse)) if not leaves(bd)] or [a]
            env.clear()
            env.update(self.join(ends))
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.expr(s.test, env)
            else:
                self.expr(s.iter, env)
                self.bind(s.target, None, env, None)
            a = dict(env)
            # names rebound in the loop are unknown at its start, unless every round binds them alike
            once = dict(env)
            Quiet(self).block(s.body, once)
            for x in assigned(s.body):
                if once.get(x) != env.get(x):
                    a[x] = None
            self.block(s.body, a)
            j = self.join([env, a])
            self.block(s.orelse, j)
            env.clear()
            env.update(j)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, env)
                if i.optional_vars:
                    self.bind(i.optional_vars, None, env, None)
            self.block(s.body, env)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            a = dict(env)
            self.block(s.body, a)
            h0 = dict(env)
            for x in assigned(s.body):
                if a.get(x) != env.get(x):
                    h0[x] = None
            ends = []
            self.block(s.orelse, a)
            if not leaves(s.body + s.orelse):
                ends.append(a)
            for h in s.handlers:
                e = dict(h0)
                if h.type is not None:
                    self.expr(h.type, e)
                if h.name:
                    e[h.name] = None
                self.block(h.body, e)
                if not leaves(h.body):
                    ends.append(e)
            j = self.join(ends or [a])
            self.block(s.finalbody, j)
            env.clear()
            env.update(j)
        elif isinstance(s, ast.Match):
            self.expr(s.subject, env)
            ends = [dict(env)]
            for c in s.cases:
                e = dict(env)
                for n in ast.walk(c.pattern):
                    for x in (getattr(n, 'name', None), getattr(n, 'rest', None)):
                        if isinstance(x, str):
                            e[x] = None
                if c.guard:
                    self.expr(c.guard, e)
                self.block(c.body, e)
                if not leaves(c.body):
                    ends.append(e)
            j = self.join(ends)
            env.clear()
            env.update(j)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = None
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c, env)

    def bind(self, t, k, env, v):
        if isinstance(t, ast.Name):
            env[t.id] = k
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None, env, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(v.elts) + list(t.elts)) else None
            ks = [Quiet(self).expr(x, dict(env)) for x in vs] if vs else [None] * len(t.elts)
            for x, kk, vv in zip(t.elts, ks, vs or ks):
                self.bind(x, kk, env, vv if vs else None)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.expr(t.value, env)
            if isinstance(t, ast.Subscript):
                self.expr(t.slice, env)

    # expressions: the kind of the value
    def member(self, name, n):
        if name == 'Tokenizer':
            return CLS
        if name == 'TokenGeeXError':
            return EXC
        if name.startswith('__'):
            return None
        if name not in self.api.exports:
            self.bad(f'the package exports no {name}', n)
        return None

    def bad(self, what, n):
        raise Violation(what, self.where(n))

    def number(self, n, k):
        if isinstance(k, tuple):
            self.bad(f'the method {k[1]} is used as a value without being called', n)

    def expr(self, n, env, quiet=False):
        if n is None:
            return None
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Attribute):
            k = self.expr(n.value, env)
            if k == MOD:
                self.n += 1
                return self.member(n.attr, n)
            if k in (CLS, INST):
                self.n += 1
                m = self.api.methods.get(n.attr)
                if m is None:
                    if n.attr.startswith('__'):
                        return None
                    self.bad(f'Tokenizer has no {n.attr}', n)
                return ('m' if k == INST or m.static else 'f', n.attr)
            return None
        if isinstance(n, ast.NamedExpr):
            k = self.expr(n.value, env)
            env[n.target.id] = k
            return k
        if isinstance(n, ast.IfExp):
            self.expr(n.test, env)
            a, b = self.expr(n.body, env), self.expr(n.orelse, env)
            return a if a == b else None
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                e[a.arg] = None
            self.expr(n.body, e)
            return None
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                self.expr(g.iter, e)
                self.bind(g.target, None, e, None)
                for c in g.ifs:
                    self.expr(c, e)
            for x in ((n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,)):
                self.expr(x, e)
            return None
        ks = [(c, self.expr(c, env)) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        if isinstance(n, (ast.BinOp, ast.UnaryOp)) and not isinstance(getattr(n, 'op', None), ast.Not) or isinstance(n, (ast.Subscript, ast.FormattedValue)):
            for c, k in ks[:1] if isinstance(n, (ast.Subscript, ast.FormattedValue)) else ks:
                self.number(c, k)
        if isinstance(n, ast.Compare) and not any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            for c, k in ks:
                if not any(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in n.ops):
                    self.number(c, k)
        return None

    def call(self, n, env):
        k = self.expr(n.func, env)
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(a.arg is None for a in n.keywords)
        for a in n.args:
            self.expr(a.value if isinstance(a, ast.Starred) else a, env)
        for a in n.keywords:
            self.expr(a.value, env)
        if k == MOD:
            self.bad('the module is called', n)
        if k == INST:
            self.bad('a tokenizer is called', n)
        if k == CLS:
            name, m, extra = '__new__', self.api.methods.get('__new__'), 0
            if m is None:
                self.bad('Tokenizer cannot be created directly', n)
        elif isinstance(k, tuple) and k[0] != 'alt':
            name = k[1]
            m = self.api.methods[name]
            extra = 1 if k[0] == 'f' else 0
        else:
            return None
        self.n += 1
        names = (['self'] if extra else []) + m.names
        kwo = dict(m.kwonly)
        if len(n.args) > len(names) and not star:
            self.bad(f'{name} takes {len(names)} arguments ({", ".join(names)}), {len(n.args)} are passed', n)
        given = names[:len(n.args)] if not star else []
        for a in n.keywords:
            if a.arg is None:
                continue
            if a.arg not in names and a.arg not in kwo:
                self.bad(f'{name} has no parameter {a.arg} (it takes {", ".join(names + list(kwo))})', n)
            if a.arg in given:
                self.bad(f'{name}: the parameter {a.arg} is given twice', n)
            given.append(a.arg)
        if not star and not dstar:
            for x in names[:m.required + extra] + [x for x, r in kwo.items() if r]:
                if x not in given:
                    self.bad(f'{name} requires {x}, which is not given', n)
        if k == CLS or m.ret == 'Tokenizer':
            return INST
        return None


class Quiet(Uses):
    """the same, reporting nothing"""

    def __init__(self, u):
        self.cx, self.path, self.api, self.n = u.cx, u.path, u.api, 0

    def bad(self, what, n):
        pass


def leaves(body):
    """the block never falls through"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If) and s.orelse and leaves(s.body) and leaves(s.orelse):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
            return True
    return False


def assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def calls(cx, p):
    u = Uses(cx, p)
    u.block(ast.parse(read(p)).body, {})
    if not u.n:
        raise Undecided('no use of the package is recognised')
    return f'{u.n} uses of the package'


# ------------------------------------------------------------ documented commands
def flagtable(cx):
    """subcommand -> (names of its options -> (declared type of the value, None for a switch; how often it may be given))"""
    if 'flagtable' in cx.cache:
        return cx.cache['flagtable']
    b = cx.prog.method(FL + 'Tokengeex', 'parse_')
    if b is None:
        raise Undecided('the parser of the command line is not found')
    arms = []

    def w(n):
        if isinstance(n, dict):
            if 'pat' in n and 'body' in n:
                arms.append(n)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    w(v)
        elif isinstance(n, list):
            for v in n:
                w(v)
    w(b['body'])
    types = b['crate'].types
    states, flags = {}, []
    for a in arms:
        p = a['pat']
        sub = dict((i, x) for i, x in p.get('sub') or [] if isinstance(i, int)) if p.get('k') == 'Leaf' and isinstance(p.get('sub'), list) else {}
        if set(sub) != {0, 1}:
            continue
        st, nm = consts(sub[0], 'int'), consts(sub[1], 'str')
        if not nm or not st:
            continue
        if all(not x.startswith('-') for x in nm):
            t = assigned_int(a['body'])
            if t is None:
                raise Undecided(f'what the word {nm[0]} does is not recognised')
            for x in nm:
                states[x] = t
        else:
            flags.append((st, nm, takes(cx, types, a['body'])))
    if not states or not flags:
        raise Undecided('the options of the subcommands are not recognised')
    out = {}
    for word, s in states.items():
        camel = ''.join(x.capitalize() for x in word.split('-'))
        try:
            fs = dict(cx.fty(FL + camel))
        except Undecided:
            fs = None
        o = out[word] = {}
        for st, nm, (val, ty) in flags:
            if s not in st:
                continue
            long_ = [x for x in nm if x.startswith('--')]
            f = (long_ or nm)[0].lstrip('-').replace('-', '_')
            t = (fs or {}).get(f)
            if f == 'help':
                arity = 'help'
            elif t is None:
                if fs is not None:
                    raise Undecided(f'{word}: no field for {nm[0]}')
                arity = None
            else:
                arity = 'many' if '::Vec<' in t or t.startswith('Vec<') else 'optional' if 'Option<' in t or not val else 'required'
            e = (tuple(nm), val, ty, arity)
            for x in nm:
                o[x] = e
    cx.cache['flagtable'] = out
    return out


def consts(p, t):
    if not isinstance(p, dict):
        return []
    if p.get('k') == 'Const':
        return [p['v']['v']] if p['v'].get('t') == t else []
    if p.get('k') == 'Or':
        return [y for x in p['pats'] for y in consts(x, t)]
    if p.get('k') == 'Deref':
        return consts(p['sub'], t)
    return []


def assigned_int(n):
    if isinstance(n, dict):
        if n.get('k') == 'Assign' and isinstance(n.get('b'), dict) and n['b'].get('k') == 'Lit':
            return n['b']['v']['v']
        for v in n.values():
            x = assigned_int(v)
            if x is not None:
                return x
    elif isinstance(n, list):
        for v in n:
            x = assigned_int(v)
            if x is not None:
                return x
    return None


def takes(cx, types, n):
    """whether an option takes a value, and the type it is parsed as"""
    out = [False, None]

    def w(n):
        if isinstance(n, dict):
            c = n.get('callee')
            if isinstance(c, dict):
                d = cx.prog.defs.get(c.get('def'))
                p = d['path'] if d else ''
                if p.endswith('::next_value') or p.endswith('::next_value_from_str'):
                    out[0] = True
                    if p.endswith('_from_str') and c.get('args'):
                        out[1] = types[c['args'][-1]]['s']
            for v in n.values():
                if isinstance(v, (dict, list)):
                    w(v)
        elif isinstance(n, list):
            for v in n:
                w(v)
    w(n)
    return tuple(out)


VAR = re.compile(r'\$\{?\w+\}?')
LOOP = re.compile(r'\$\(for (\w+) in ([^;`$]*?)\s*; *do +echo +(?:-n +)?"([^"]*)" *;? *; *done\)|\$\(for (\w+) in ([^;`$]*?)\s*; *do +echo +(?:-n +)?"([^"]*)"; done\)')
HOLE = '\u25a1'    # a value only known when the command runs


def scripts_(p):
    t = read(p)
    if p.endswith('.sh'):
        return [(1, t)]
    return [(t.count('\n', 0, m.start(1)) + 1, m.group(1)) for m in FENCE.finditer(t)]


def cmdlines(p):
    """(line, words) of every invocation of the tool; words is None when they are not recognised"""
    out = []
    for base, text in scripts_(p):
        ln = base
        cur, at = '', None
        for raw in text.split('\n'):
            if at is None:
                at = ln
            ln += 1
            if raw.rstrip().endswith('\\') and not raw.rstrip().endswith('\\\\'):
                cur += raw.rstrip()[:-1] + ' '
                continue
            cur += raw
            line, where = cur, at
            cur, at = '', None
            for ws in split(line):
                out.append((where, ws))
        if cur.strip():
            for ws in split(cur):
                out.append((at, ws))
    return out


def split(line):
    if 'tokengeex' not in line or line.lstrip().startswith('#'):
        return

    def unroll(m):
        v, ws, t = [x for x in m.groups() if x is not None]
        return ' '.join(re.sub(r'\$\{%s\}|\$%s\b' % (v, v), lambda _: w, t) for w in ws.split())
    line = LOOP.sub(unroll, line)
    try:
        lx = shlex.shlex(line, posix=True, punctuation_chars=';&|')
        lx.whitespace_split = True
        toks = list(lx)
    except ValueError:
        toks = None
    if toks is None:
        if re.match(r'\s*(\w+=\S* +)*tokengeex\b', line):
            yield None
        return
    cmd = []
    for t in toks + [';']:
        if t and set(t) <= set(';&|'):
            w = cmd
            while w and (re.match(r'^\w+=', w[0]) or w[0] in ('do', 'then', 'else', 'time', 'nohup', 'sudo', '$')):
                w = w[1:]
            if w and w[0].split('/')[-1] == 'tokengeex':
                yield None if '$(' in ' '.join(w) or '`' in ' '.join(w) else w[1:]
            elif w[:2] == ['cargo', 'run'] and '--' in w:
                yield w[w.index('--') + 1:]
            cmd = []
        else:
            cmd.append(t)


def commands(cx, p):
    tab = flagtable(cx)
    n = 0
    for ln, ws in cmdlines(p):
        where = f'{rel(p)}:{ln}'
        if ws is None:
            raise Undecided(f'{where}: the command is not recognised')
        n += 1
        command(tab, ws, where)
    return f'{n} commands'


def command(tab, ws, where):
    if ws and ws[0] in ('-h', '--help'):
        return
    if not ws:
        raise Violation('the tool is called without a subcommand', where)
    c, args = ws[0], ws[1:]
    if '$' in c:
        raise Undecided(f'{where}: the subcommand is computed')
    if c not in tab:
        raise Violation(f'the tool has no subcommand {c}', where)
    o = tab[c]
    seen = []
    i = 0
    while i < len(args):
        a = args[i]
        if a.startswith('>') or re.match(r'^\d*>', a) or a in ('<',):
            i += 1 if len(a) > 2 else 2
            continue
        if a.startswith('$') or a in ('...', '…'):
            raise Undecided(f'{where}: an argument is computed')
        if a not in o:
            raise Violation(f'{c} has no option {a}' if a.startswith('-') else f'{c} takes no argument {a!r}', where)
        nm, val, ty, arity = o[a]
        if arity == 'help':
            return
        i += 1
        if val:
            if i >= len(args):
                raise Violation(f'{c}: no value for {a}', where)
            v = args[i]
            i += 1
            if not VAR.search(v) and not fits(v, ty):
                raise Violation(f'{c}: {v!r} is no {ty}, which {a} takes', where)
        if nm in seen and arity in ('optional', 'required'):
            raise Violation(f'{c}: {a} is given twice', where)
        seen.append(nm)
    if c == 'regex' and not args:
        return
    for e in {id(x): x for x in o.values()}.values():
        if e[3] == 'required' and e[0] not in seen:
            raise Violation(f'{c}: the required option {e[0][0]} is not given', where)


def fits(v, ty):
    if ty in ('usize', 'u64', 'u32', 'u16', 'u8', 'u128'):
        return bool(re.fullmatch(r'\+?\d+', v)) and (ty == 'usize' or int(v) < 2 ** int(ty[1:]))
    if ty in ('isize', 'i64', 'i32', 'i16', 'i8'):
        return bool(re.fullmatch(r'[+-]?\d+', v))
    if ty in ('f64', 'f32'):
        return bool(re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf|infinity|nan)', v, re.I))
    if ty == 'bool':
        return v in ('true', 'false')
    return True


def usages(p):
    return [(m.group(2), m.group(1), read(p).count('\n', 0, m.start(1)) + 1) for m in USAGE.finditer(read(p))]


def usage(cx, p):
    tab = flagtable(cx)
    n = 0
    for c, text, ln in usages(p):
        where = f'{rel(p)}:{ln}'
        if c not in tab:
            raise Violation(f'the tool has no subcommand {c}', where)
        for line in text.split('\n'):
            m = re.match(r'^\s+((?:-\w, +)?--?[a-z][\w-]*)( +<[^>]*>)?\s*$', line)
            if not m:
                continue
            names = m.group(1).replace(',', ' ').split()
            n += 1
            for x in names:
                if x not in tab[c]:
                    raise Violation(f'{c} has no option {x}', where)
            if len({tab[c][x][0] for x in names}) > 1:
                raise Violation(f'{c}: {" and ".join(names)} are not the same option', where)
            e = tab[c][names[0]]
            if e[3] != 'help' and bool(m.group(2)) != bool(e[1]):
                raise Violation(f'{c}: {names[0]} takes {"a" if e[1] else "no"} value', where)
    if not n:
        raise Undecided('no option is recognised')
    return f'{n} options'


# ------------------------------------------------------------ the evaluation log
class Shape:
    """what is known of a JSON value: its keys ('*' for a computed one), or nothing"""

    def __init__(self, keys=None):
        self.keys = keys


def log(cx):
    ev, pl = dump.REPO + '/scripts/evaluate.py', dump.REPO + '/scripts/plot.py'
    for p in (ev, pl):
        if not os.path.exists(p):
            raise Undecided(f'{rel(p)} not found')
    s = written(ev)
    r = Reader(pl, s)
    r.module()
    if not r.n:
        raise Undecided('plot.py: no access to the log is recognised')
    return f'{r.n} accesses'


def written(p):
    """the shape of what json.dump is given"""
    tree = ast.parse(read(p))
    ds = [n for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('dump', 'dumps') and ast.unparse(n.func.value) == 'json' and n.args]
    if len(ds) != 1:
        raise Undecided(f'{rel(p)}: {len(ds)} calls of json.dump')
    x = ds[0].args[0]
    return value(tree, x, p, 0)


def value(tree, x, p, d):
    if d > 6:
        return Shape()
    if isinstance(x, ast.Dict):
        out = {}
        for k, v in zip(x.keys, x.values):
            if k is None:
                return Shape()
            out[k.value if isinstance(k, ast.Constant) else '*'] = value(tree, v, p, d + 1)
        return Shape(out)
    if isinstance(x, ast.DictComp):
        return Shape({'*': value(tree, x.value, p, d + 1)})
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'dict' and not x.args:
        return Shape({k.arg: value(tree, k.value, p, d + 1) for k in x.keywords if k.arg}) if all(k.arg for k in x.keywords) else Shape()
    if isinstance(x, ast.Name):
        defs = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == x.id:
                        defs.append(n.value)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == x.id and n.value:
                defs.append(n.value)
            if isinstance(n, (ast.For, ast.With, ast.AugAssign)) and any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for y in ast.walk(n.target if not isinstance(n, ast.With) else ast.Tuple(elts=[i.optional_vars for i in n.items if i.optional_vars]))):
                return Shape()
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == x.id and n.func.attr in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                return Shape()
            if isinstance(n, ast.Delete) and any(isinstance(y, ast.Subscript) and root(y)[0] == x.id for y in n.targets):
                return Shape()
        if len(defs) != 1:
            return Shape()
        s = value(tree, defs[0], p, d + 1)
        # entries stored later
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and root(t)[0] == x.id:
                        store(s, root(t)[1], value(tree, n.value, p, d + 1))
        return s
    return Shape()


def root(t):
    ks = []
    while isinstance(t, ast.Subscript):
        ks.insert(0, t.slice.value if isinstance(t.slice, ast.Constant) else '*')
        t = t.value
    return (t.id if isinstance(t, ast.Name) else None), ks


def store(s, ks, v):
    for k in ks[:-1]:
        if s.keys is None:
            return
        s = s.keys.setdefault(k, Shape({}))
    if s.keys is not None:
        s.keys[ks[-1]] = v


class Reader:
    """accesses to the loaded log: names bound to a part of it, and the constants it is indexed by"""

    def __init__(self, p, shape):
        self.p, self.shape, self.n = p, shape, 0
        self.tree = ast.parse(read(p))
        self.fns = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}
        self.depth = 0

    def module(self):
        self.block(self.tree.body, {})

    def block(self, body, env):
        ret = None
        for s in body:
            r = self.stmt(s, env)
            ret = ret if r is None else r
        return ret

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return None
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
            return None
        if isinstance(s, ast.Return):
            return self.expr(s.value, env) if s.value else None
        if isinstance(s, ast.For):
            self.loop(s.target, s.iter, env)
            r = self.block(s.body, env)
            self.block(s.orelse, env)
            return r
        for n in ('test', 'value', 'subject'):
            x = getattr(s, n, None)
            if isinstance(x, ast.expr):
                self.expr(x, env)
        for i in getattr(s, 'items', []):
            self.expr(i.context_expr, env)
            if i.optional_vars:
                self.bind(i.optional_vars, None, env)
        r = None
        for n in ('body', 'orelse', 'finalbody'):
            b = getattr(s, n, None)
            if isinstance(b, list):
                r = self.block(b, env) or r
        for h in getattr(s, 'handlers', []):
            r = self.block(h.body, env) or r
        return r

    def loop(self, target, it, env):
        v = self.expr(it, env)
        if isinstance(v, tuple) and v[0] == 'alts':
            self.bind(target, v[1], env)
        elif isinstance(v, Shape):
            self.bind(target, ('key',), env)
        elif isinstance(v, tuple) and v[0] == 'items':
            if isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
                self.bind(target.elts[0], ('key',), env)
                self.bind(target.elts[1], self.entry(v[1]), env)
            else:
                self.bind(target, None, env)
        elif isinstance(v, tuple) and v[0] == 'values':
            self.bind(target, self.entry(v[1]), env)
        else:
            self.bind(target, None, env)

    def entry(self, s):
        if s.keys is None:
            return Shape()
        return s.keys.get('*') if set(s.keys) == {'*'} else Shape()

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = [None] * len(t.elts)
            if isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) == len(t.elts):
                vs = v[1]
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)

    def expr(self, n, env):
        if n is None:
            return None
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Constant):
            return ('str', {n.value}) if isinstance(n.value, str) else None
        if isinstance(n, ast.Tuple):
            return ('tup', [self.expr(x, env) for x in n.elts])
        if isinstance(n, ast.List):
            vs = [self.expr(x, env) for x in n.elts]
            if vs and all(isinstance(v, tuple) and v[0] == 'tup' and len(v[1]) == len(vs[0][1]) for v in vs if True) and all(isinstance(v, tuple) for v in vs):
                cols = []
                for c in zip(*[v[1] for v in vs]):
                    cols.append(('str', set().union(*[x[1] for x in c])) if all(isinstance(x, tuple) and x[0] == 'str' for x in c) else None)
                return ('alts', ('tup', cols))
            if vs and all(isinstance(v, tuple) and v[0] == 'str' for v in vs):
                return ('alts', ('str', set().union(*[v[1] for v in vs])))
            return None
        if isinstance(n, ast.Subscript):
            v, k = self.expr(n.value, env), self.expr(n.slice, env)
            if isinstance(v, Shape):
                return self.at(v, k, n)
            return None
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                self.loop(g.target, g.iter, e)
                for c in g.ifs:
                    self.expr(c, e)
            for x in ((n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,)):
                self.expr(x, e)
            return None
        if isinstance(n, ast.Call):
            return self.call(n, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return None

    def at(self, s, k, n):
        if s.keys is None:
            return Shape()
        if isinstance(k, tuple) and k[0] == 'str':
            self.n += 1
            for x in sorted(k[1]):
                if x not in s.keys and '*' not in s.keys:
                    raise Violation(f'the key {x!r} of the log is read, an evaluation writes {", ".join(sorted(map(str, s.keys)))} there', f'{rel(self.p)}:{n.lineno} and scripts/evaluate.py')
            return s.keys.get(min(k[1]), s.keys.get('*')) if len(k[1]) == 1 else Shape()
        if set(s.keys) == {'*'}:
            return s.keys['*']
        return Shape()

    def call(self, n, env):
        f = n.func
        vs = [self.expr(a.value if isinstance(a, ast.Starred) else a, env) for a in n.args]
        kw = {k.arg: self.expr(k.value, env) for k in n.keywords}
        if isinstance(f, ast.Attribute):
            if ast.unparse(f) in ('json.load', 'json.loads'):
                return self.shape
            v = self.expr(f.value, env)
            if isinstance(v, Shape):
                if f.attr in ('items', 'values'):
                    return (f.attr, v)
                if f.attr == 'keys':
                    return v
                if f.attr == 'get' and vs:
                    return self.at(v, vs[0], n) if len(vs) == 1 else Shape()
            return None
        if isinstance(f, ast.Name):
            if f.id in ('sorted', 'list', 'set', 'tuple', 'reversed') and len(vs) == 1:
                return vs[0] if isinstance(vs[0], Shape) or isinstance(vs[0], tuple) and vs[0][0] in ('items', 'values', 'alts') else None
            g = self.fns.get(f.id)
            if g is not None and self.depth < 6:
                e = {}
                ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                for a, v in zip(ps, vs):
                    e[a] = v
                for k, v in kw.items():
                    if k:
                        e[k] = v
                self.depth += 1
                try:
                    return self.block(g.body, e)
                finally:
                    self.depth -= 1
        return None
