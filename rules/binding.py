"""The Python bindings: exceptions (C16), delegation (C17), pickling (C18)."""
import ast
from lib import *
from terms import *
import terms as TT
import dump
from thir import simp

P = 'tokengeex::PyTokenizer'
TOKN = 'tokengeex::tokenizer::Tokenizer'
ITEMS = 'py_methods::ITEMS'
OSERR = ('PyIOError', 'PyOSError', 'PyEnvironmentError', 'PyFileNotFoundError', 'PyPermissionError')


def und(*ts):
    for t in ts:
        w = murky(t)
        if w:
            raise Undecided(w)


def lib(cx):
    """the library's functions, each an opaque operation on its arguments"""
    out = {}

    def mkf(path):
        name = path.split('::')[-1]

        def f(I, a, st, fr, e):
            args = [I.deep(st, x) for x in a]
            ty = I.tyof(fr, e) if e is not None and 'ty' in e else {'s': '?', 'k': '?'}
            args = [seq_(x) for x in args]
            r = mk('lib', name, *args)
            mut = bool(a) and e is not None and 'args' in e and a[0].op == 'ref' and I.tyof(fr, e['args'][0])['s'].startswith('&mut ')
            I.event('call', st, fr, e, name='lib:' + name, args=args, ret=r, fallible=ty['s'].split('<')[0].endswith('Result'), mutates=mut)
            if mut:
                I.store(st, a[0], mk('libmut', name, *args), fr, e)
                return UNIT if ty['s'] == '()' else r
            return r
        return f
    own = {d['path'] for d in cx.prog.defs.values() if d['crate'].id == PY and d['local']}
    for h, d in cx.prog.defs.items():
        if d.get('krate') == 'tokengeex' and d['kind'] in ('Fn', 'AssocFn') and d['path'] not in own:
            if d['path'].endswith('Clone>::clone') or d['path'].endswith('Default>::default'):
                continue
            out[d['path']] = mkf(d['path'])
    return out


def seq_(x):
    return x.args[0] if x.op == 'items' else x


class M:
    pass


def text(t):
    """a constant string, None otherwise"""
    return t.args[0].decode() if t.op == 'kb' else None


def fnids(cx, b):
    """local functions a body mentions"""
    out = []

    def w(n):
        if isinstance(n, dict):
            ty = n.get('ty')
            if isinstance(ty, int):
                t = b['crate'].types[ty]
                if t['k'] == 'fndef' and t.get('def') in cx.prog.bodies and t['def'] not in out:
                    out.append(t['def'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    w(v)
        elif isinstance(n, list):
            for v in n:
                w(v)
    w(b['body'])
    return out


def items(cx):
    """what Python sees: name -> the function behind it, its parameters"""
    if 'items' in cx.cache:
        return cx.cache['items']
    bs = [b for h, b in cx.prog.bodies.items() if b['crate'].id == PY and ('PyMethods<' + P + '>') in cx.prog.defs[h]['path'] and cx.prog.defs[h]['path'].endswith(ITEMS)]
    if not bs:
        raise Undecided('the method table of the class was not found')
    descr = {}
    for h, b in cx.prog.bodies.items():
        p = cx.prog.defs[h]['path']
        if b['crate'].id == PY and p.endswith('::DESCRIPTION'):
            r = cx.run(b, None, expand_consts=True, tag='x')
            f = r.ret.args[2]
            if len(f) != 6 or text(f[1]) is None:
                raise Undecided(f'{p}: parameter description not recognised')
            descr[p[:-len('::DESCRIPTION')]] = f
    out = {}
    for b in bs:
        r = cx.run(b, None, expand_consts=True, tag='x')
        for part in r.ret.args[2]:
            for x in subterms(part):
                if x.op == 'agg' and str(x.args[0]).endswith('PyMethodDefType'):
                    m = method_(cx, x)
                    if m:
                        out[m.name] = m
    # slots (__new__ and the like) carry no name: read it from the wrappers
    for w, f in descr.items():
        n = text(f[1])
        if n not in out and n.startswith('__'):
            out[n] = M()
            out[n].name, out[n].flags = n, 'slot'
            out[n].wrapper = [b for h, b in cx.prog.bodies.items() if b['crate'].id == PY and cx.prog.defs[h]['path'] == w][0]
    for m in out.values():
        wp = cx.prog.defs[m.wrapper['def']]['path']
        f = descr.get(wp)
        m.names, m.required, m.kwonly = [], 0, []
        if f is not None:
            m.names = [text(x) for x in listof(f[2])]
            m.required = f[4].args[0]
            m.kwonly = listof(f[5])
        fs = [cx.prog.bodies[d] for d in fnids(cx, m.wrapper)]
        fs = [b for b in fs if cx.prog.defs[b['def']]['path'].startswith(P + '::')]
        if len(fs) != 1:
            raise Undecided(f'{m.name}: {len(fs)} functions behind it')
        m.body = fs[0]
        m.path = cx.prog.defs[m.body['def']]['path']
    cx.cache['items'] = out
    return out


def listof(s):
    if s.op == 'cat':
        return [y for x in s.args for y in listof(x)]
    if s.op == 'one':
        return [s.args[0]]
    raise Undecided('list not recognised: ' + show(s, 3)[:120])


def method_(cx, x):
    """an entry of the method table"""
    kind = None
    for y in subterms(x):
        if y.op == 'unk' and str(y.args[0]).split('::')[0] == 'PyMethodDef':
            kind = y
    if kind is None:
        return None
    m = M()
    m.flags = kind.args[0].split('::')[1]
    m.static = any(y.op == 'unk' and str(y.args[0]).endswith('flags') for y in subterms(x))
    n = kind.args[1]
    if text(n) is None:
        raise Undecided('a method name is not constant')
    m.name = text(n).rstrip('\0')
    fns = [y for y in subterms(kind) if y.op == 'fn']
    if len(fns) != 1:
        raise Undecided(f'{m.name}: no single wrapper')
    d = fns[0].args[0]
    tr = cx.prog.bodies.get(d)
    ids = fnids(cx, tr)
    ids = [d for d in ids if '__pymethod_' in cx.prog.defs[d]['path']]
    if len(ids) != 1:
        raise Undecided(f'{m.name}: no single function behind the wrapper')
    m.wrapper = cx.prog.bodies[ids[0]]
    return m


def run(cx, m):
    return cx.run(m.body, None, extra=lib(cx))


def args(cx, r):
    """parameters Python passes, in order, without the interpreter token and self"""
    b = r.body
    out = []
    for i, p in enumerate(b['params']):
        s = b['crate'].types[p['ty']]['s']
        if 'pyo3::marker::Python<' in s or 'PyRef<' in s and 'Tokenizer' in s or s in (f'&{P}', f'&mut {P}'):
            continue
        out.append(r.p(i))
    return out


def selfarg(cx, r):
    b = r.body
    for i, p in enumerate(b['params']):
        s = b['crate'].types[p['ty']]['s']
        if s in (f'&{P}', f'&mut {P}') or s.lstrip('&').replace('mut ', '').endswith('PyTokenizer'):
            return i
    return None


def inner(cx):
    return cx.fidx(P, lambda s: s.endswith('Tokenizer'))


def retty(b):
    return b['crate'].types[b['ret']]


def result(b):
    """(ok type, error type) of a fallible function, else None"""
    t = retty(b)
    if t['k'] != 'adt' or t.get('path', '').split('::')[-1] != 'Result':
        return None
    return [b['crate'].types[a] for a in t['args'][:2]]


def raised(cx, b, e):
    """the exception that reaches Python for the error value e of function b"""
    t = result(b)[1]
    if t['s'].endswith('PyErr'):
        return e
    for h, f in cx.prog.bodies.items():
        d = cx.prog.defs[h]
        if f['crate'].id == PY and d['path'].endswith('for pyo3::err::PyErr>::from') and f['crate'].types[f['params'][0]['ty']]['s'] == t['s']:
            r = cx.run(f, None, extra=lib(cx))
            cx.clear(r)
            return LPsub(r.ret, r.p(0), e)
    if t['s'] == 'std::io::Error':
        return mk('pyerr', 'PyOSError', e)
    raise Undecided(f'conversion of {t["s"]} into an exception not found')


def LPsub(t, a, b):
    import loops
    return loops.replace(t, a, b)


def isok(x):
    return isvar(x, 0, 2)


def fallible(r):
    """the calls whose failure the function has to pass on: (failure, error value, what, where)"""
    out = []
    for e in r.events:
        if e['kind'] == 'call' and e.get('fallible'):
            out.append((e['pc'], NOT(isok(e['ret'])), e['ret'], e['name'].split(':')[1], e['where'], bool(e['loops'])))
    seen = set()
    for t in [r.ret] + [v for v in r.st.mem.values() if isinstance(v, T)]:
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('tojson', 'fromjson', 'parse') or x.op == 'call' and x.args[0] in FALLIBLE:
                out.append((TRUE, NOT(isok(x)), x, str(x.args[0]) if x.op == 'call' else x.op, None, any(y.op == 'bv' or y.op == 'sym' and y.args and y.args[0] in ('j', 'jx') for y in subterms(x))))
    return out


FALLIBLE = ('Py::extract', 'PyAny::extract', 'Bound::extract', 'Py::downcast', 'PyAny::downcast', 'PyModule::add', 'PyModule::add_class')


# ------------------------------------------------------------ C16
def c16(cx):
    its = items(cx)
    for n in sorted(its):
        m = its[n]
        cx.ob('raises:' + n, 'every failure of the calls the method makes is returned as an exception of its kind, and nothing it does can panic', raises, cx, m)
    cx.ob('exception', 'a tokenizer error becomes TokenGeeXError', exception, cx)
    cx.ob('importable', 'the module registers the class and the exception type under its name, and reports a failed registration', module, cx)


def raises(cx, m):
    r = run(cx, m)
    cx.clear(r)
    panics(cx, r)
    fs = fallible(r)
    n = 0
    sf = result(m.body)
    for pc, bad, x, what, where, inloop in fs:
        n += 1
        at_ = f'{r.path} ({r.file}:{where[2] if where else r.line})'
        c = AND(pc, bad)
        if c is FALSE:
            continue
        if sf is None:
            raise Violation(f'{what} can fail, and {m.name} returns a plain value', at_)
        # another failure met before may be the one reported
        oth = [NOT(f[1]) for f in fs if f[2] is not x]
        und(isok(r.ret))
        d = AND(c, isok(r.ret))
        if d is not FALSE and not proves(NOT(d)):
            if inloop and isok(r.ret) is not TRUE:
                raise Undecided(f'{what} is called in a loop')
            # the error may be handed over by a later fallible step only if that one fails
            raise Violation(f'{what} fails and {m.name} still succeeds, when {show(d, 6)[:300]}', at_)
        c2 = AND(c, *oth)
        e = restrict(raised(cx, m.body, fld(r.ret, 1, 0)), c2)
        for g, l in leaves(e):
            if AND(g, c2) is FALSE or l.op == 'bot':
                continue
            if l.op != 'pyerr':
                if what in FALLIBLE and l is fld(x, 1, 0):
                    continue
                und(l)
                raise Violation(f'{what} fails and {m.name} reports {show(l, 6)[:200]}', at_)
            k = l.args[0]
            if what in ('tojson', 'fromjson') and m.name.startswith('__') or what in FALLIBLE:
                continue
            if what == 'save':
                if k not in OSERR:
                    raise Violation(f'{m.name} reports the I/O failure of {what} as {k}, not as OSError', at_)
            elif k != 'TokenGeeXError':
                raise Violation(f'{m.name} reports the failure of {what} as {k}, not as TokenGeeXError', at_)
    for e in r.events:
        if e['kind'] == 'call' and str(e.get('name', '')).startswith('lib:') and e.get('fallible') and e['pc'] is FALSE:
            raise Undecided(f'{e["name"]} is never reached')
    return f'{n} fallible calls, {len(r.events)} events of {r.path}'


def leaves(t):
    from terms import leaves as lv
    return list(lv(t))


def exception(cx):
    n = 0
    for h, f in cx.prog.bodies.items():
        d = cx.prog.defs[h]
        if f['crate'].id == PY and d['path'].endswith('for pyo3::err::PyErr>::from') and 'TokenGeeXError' in f['crate'].types[f['params'][0]['ty']]['s'] and not f['crate'].types[f['params'][0]['ty']]['s'].startswith('&'):
            r = cx.run(f, None, extra=lib(cx))
            cx.clear(r)
            n += 1
            for g, l in leaves(r.ret):
                und(l)
                if l.op != 'pyerr' or l.args[0] != 'TokenGeeXError':
                    raise Violation(f'a tokenizer error becomes {show(l, 4)[:200]}', r.where)
                if not any(x.op == 'disp' for a in l.args[1:] for x in subterms(a)):
                    raise Violation(f'the exception does not carry the message of the error: {show(l, 4)[:200]}', r.where)
    if not n:
        raise Undecided('no conversion found')
    return f'{n} conversions'


def modfn(cx):
    ms = [b for h, b in cx.prog.bodies.items() if b['crate'].id == PY and any(b['crate'].types[p['ty']]['s'].endswith('types::module::PyModule') or 'PyModule' in b['crate'].types[p['ty']]['s'] for p in b['params'])
          and result(b) and cx.prog.defs[b['def']]['kind'] == 'Fn']
    if len(ms) != 1:
        raise Undecided(f'{len(ms)} module initialisers')
    return ms[0]


def module(cx):
    b = modfn(cx)
    reg = []

    def add_class(I, a, st, fr, e):
        ts = [fr.crate.types[x]['s'] for x in ((e or {}).get('callee') or {}).get('args', []) if isinstance(x, int)]
        r = mk('call', 'PyModule::add_class', ' '.join(ts))
        reg.append(('class', ts, r, st.pc))
        I.event('call', st, fr, e, name='add_class', args=[], ret=r, fallible=True)
        return r

    def get_type(I, a, st, fr, e):
        ts = [fr.crate.types[x]['s'] for x in ((e or {}).get('callee') or {}).get('args', []) if isinstance(x, int)]
        return mk('pytype', ' '.join(ts))

    def add(I, a, st, fr, e):
        v = [I.deep(st, x) for x in a]
        r = mk('call', 'PyModule::add', v[1], v[2])
        reg.append(('add', v[1:], r, st.pc))
        I.event('call', st, fr, e, name='add', args=v[1:], ret=r, fallible=True)
        return r
    anchors = {}
    for h, d in cx.prog.defs.items():
        s = simp(d['path'])
        if s == 'PyModule::add_class':
            anchors[d['path']] = add_class
        elif s == 'PyModule::add':
            anchors[d['path']] = add
        elif s in ('Python::get_type', 'PyType::new'):
            anchors[d['path']] = get_type
    r = cx.run(b, None, extra=anchors, tag='mod')
    cx.clear(r)
    panics(cx, r)
    cls = [x for x in reg if x[0] == 'class']
    exc = [x for x in reg if x[0] == 'add' and text(x[1][0]) == 'TokenGeeXError']
    cx.must(cls, 'the module does not register the tokenizer class', r)
    cx.must(exc, 'the module does not register TokenGeeXError under that name', r)
    if not any(x[1] == [] or any(P in y for y in x[1]) for x in cls):
        raise Violation('the module registers another class', r.where)
    for x in exc:
        v = x[1][1]
        if v.op != 'pytype':
            und(v)
            raise Undecided('what is registered as TokenGeeXError is not recognised')
        if v.args[0] and 'TokenGeeXError' not in v.args[0]:
            raise Violation(f'what is registered as TokenGeeXError is {v.args[0]}', r.where)
    allok = AND(*[isok(x[2]) for x in reg])
    for k, a, t, pc in reg:
        if pc is not TRUE:
            rest = AND(*[isok(y[2]) for y in reg if y[2] is not t])
            cx.holds(OR(NOT(rest), pc), f'{"the class" if k == "class" else show(a[0], 2)} is registered', r)
        und(isok(r.ret))
        if AND(pc, NOT(isok(t)), isok(r.ret)) is not FALSE:
            raise Violation('a failed registration is not reported', r.where)
    # the name of the module
    nm = [f for h, f in cx.prog.bodies.items() if f['crate'].id == PY and cx.prog.defs[h]['path'] == r.path + '::NAME']
    if len(nm) == 1:
        t = cx.run(nm[0], None, expand_consts=True, tag='x').ret
        if text(t) and text(t).rstrip('\0') != 'tokengeex':
            raise Violation(f'the module is named {text(t)}', r.where)
    return f'{len(reg)} registrations'


# ------------------------------------------------------------ C17
SPECIAL = ('__new__', '__getstate__', '__setstate__')


def c17(cx):
    its = items(cx)
    st = stub(cx)
    for n in sorted(its):
        if n not in SPECIAL and not n.startswith('__'):
            cx.ob('delegates:' + n, 'the method returns what the library method of that name returns for the same arguments in the same roles, and has no other effect', delegates, cx, its[n])
    for n in sorted(set(st) | {x for x in its if not x.startswith('__')}):
        cx.ob('stub:' + n, 'the stub and the class have the method with the same parameters and types', stubbed, cx, n)


def conv(cx, name, L):
    """the library's result as the binding presents it"""
    if name == 'id_to_base_token':
        f = cx.prog.adt_by_path.get('tokengeex::ScoredToken')
        ns = [x['name'] for x in f['variants'][0]['fields']]
        if 'value' not in ns or 'score' not in ns:
            raise Undecided('fields of ScoredToken not recognised')
        t = fld(L, 1, 0)
        return ite(isvar(L, 0, 2), NONE, some(tup(fld(t, 0, ns.index('value')), fld(t, 0, ns.index('score')))))
    return L


def canon(cx, t):
    """other ways to call the library, as the methods of that name"""
    import loops
    t = loops.mapop(t, 'fromjson', lambda x: mk('lib', 'from_str', x.args[1]) if str(x.args[0]) == TOKN else x)
    t = loops.mapop(t, 'parse', lambda x: mk('lib', 'from_str', x.args[1]) if str(x.args[0]) in ('?', TOKN) else x)
    t = loops.mapop(t, 'disp', lambda x: mk('lib', 'to_string', x.args[0]) if x.args[0].op == 'fld' else x)
    return t


def delegates(cx, m):
    r = run(cx, m)
    cx.clear(r)
    n = m.name
    a = args(cx, r)
    si = selfarg(cx, r)
    k = inner(cx)
    recv = [] if si is None else [fld(r.p(si), 0, k)]
    got = canon(cx, r.ret)
    if n == 'common_prefix_search':
        es = [e for e in r.events if e['kind'] == 'call' and e.get('name') == 'lib:common_prefix_search']
        und(got)
        if len(es) != 1:
            raise Violation(f'{n} searches {len(es)} times', r.where)
        L = es[0]['ret']
        cx.same(L.args[1], mk('lib', 'model', *recv), 'the model searched', r)
        cx.same(L.args[2], a[0], 'the text searched', r)
        s = mk('items', L)
        cx.same(got, concat(seqlen(s), lambda j: one(fld(at(s, j), 0, 0))), 'the ids returned', r)
        return 'ids of ' + show(L, 3)
    L = mk('lib', n, *recv, *a)
    calls = [e for e in r.events if e['kind'] == 'call' and str(e.get('name', '')).startswith('lib:')]
    if not [x for x in subterms(got) if x.op == 'lib'] and not calls:
        und(got)
    muts = [e for e in calls if e.get('mutates')]
    if n == 'add_special_tokens':
        mem = r.mem(si)
        want = agg(r.p(si).args[0] if False else None, 0, ())
        if mem is None:
            raise Violation(f'{n} does not change the tokenizer', r.where)
        v = canon(cx, fld(mem, 0, k))
        und(v)
        cx.same(v, mk('libmut', n, *recv, *a), 'the tokenizer afterwards', r)
        return 'changes ' + show(v, 3)[:100]
    if muts:
        raise Violation(f'{n} changes the tokenizer: {muts[0]["name"][4:]}', f'{r.path} ({r.file}:{muts[0]["where"][2]})')
    if n in ('save',) and len([e for e in calls if e['name'] == 'lib:save']) != 1:
        raise Violation(f'{n} saves {len([e for e in calls if e["name"] == "lib:save"])} times', r.where)
    if n.endswith('_batch') and any(x.op == 'lib' and x.args[0] == n[:-6] for x in subterms(got)):
        # the batch done item by item
        one_ = lambda x: mk('lib', n[:-6], *recv, x, *a[1:])
        xs = a[0]
        und(got)
        cx.same(isok(got), NOT(exists(seqlen(xs), lambda j: NOT(isok(one_(at(xs, j)))))), 'success', r)
        cx.same(restrict(fld(got, 0, 0), isok(got)), concat(seqlen(xs), lambda j: one(fld(one_(at(xs, j)), 0, 0))), 'the values returned', r, isok(got))
        return 'each item: ' + show(one_(at(xs, J())), 3)[:120]
    if result(m.body):
        good = isok(L)
        und(isok(got))
        cx.same(isok(got), good, 'success', r)
        v = restrict(fld(got, 0, 0), good)
        want = fld(L, 0, 0)
        if n in ('from_str', 'from_file'):
            und(v)
            cx.same(fld(v, 0, k), want, 'the tokenizer returned', r, good)
        elif n == 'save':
            pass
        else:
            cx.same(v, want, 'the value returned', r, good)
    else:
        cx.same(got, conv(cx, n, L), 'the value returned', r)
    return show(L, 3)[:120]


def stub(cx):
    p = os.path.join(dump.REPO, 'bindings/python/tokengeex.pyi')
    if not os.path.exists(p):
        raise Undecided('tokengeex.pyi not found')
    t = ast.parse(open(p, encoding='utf-8').read())
    c = [x for x in t.body if isinstance(x, ast.ClassDef) and x.name == 'Tokenizer']
    if len(c) != 1:
        raise Violation('the stub declares no class Tokenizer', p)
    return {f.name: f for f in c[0].body if isinstance(f, ast.FunctionDef) and not f.name.startswith('__')}


def pyty(b, t):
    """the Python type of a Rust one, None when unknown"""
    s = t['s']
    if t['k'] == 'ref':
        return pyty(b, b['crate'].types[t['args'][0]])
    if s in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize'):
        return 'int'
    if s in ('f32', 'f64'):
        return 'float'
    if s == 'bool':
        return 'bool'
    if s in ('str', 'std::string::String', 'alloc::string::String', 'char'):
        return 'str'
    if s == '()':
        return 'None'
    if s == P:
        return 'Tokenizer'
    if s.endswith('PyBytes>') and t['k'] == 'adt' or s.endswith('PyBytes'):
        return 'bytes'
    a = [b['crate'].types[x] for x in t.get('args', []) if isinstance(x, int)]
    if t['k'] == 'tuple':
        x = [pyty(b, y) for y in a]
        return None if None in x else 'Tuple[%s]' % ', '.join(x)
    n = t.get('path', '').split('::')[-1]
    if n in ('Vec', 'Option') and a or t['k'] == 'slice':
        if a[0]['s'] == 'u8' and n != 'Option':
            return 'bytes'
        x = pyty(b, a[0])
        return x and f'{"Optional" if n == "Option" else "List"}[{x}]'
    if n == 'Result' and a:
        return pyty(b, a[0])
    return None


def ann(x):
    """a normalised annotation"""
    if x is None:
        return None
    s = ast.unparse(x).replace('typing.', '').replace('builtins.', '').strip('\'"')
    import re
    s = re.sub(r'\b(list|Sequence|Iterable|Iterator|Collection)\b', 'List', s)
    s = s.replace('tuple[', 'Tuple[').replace("'", '')
    q = re.fullmatch(r'(.*?) *\| *None', s) or re.fullmatch(r'Union\[(.*), None\]', s)
    return f'Optional[{q.group(1)}]' if q else s


def sig(names, kw):
    return ', '.join(names + (['*'] + kw if kw else []))


def stubbed(cx, n):
    its, st = items(cx), stub(cx)
    where = 'bindings/python/tokengeex.pyi'
    if n not in its:
        raise Violation(f'the stub declares {n}, which the class does not have', f'{where}:{st[n].lineno}')
    m = its[n]
    if n not in st:
        raise Violation(f'the stub does not declare {n}', f'{m.path} ({m.body["file"]}:{m.body["line"]})')
    f = st[n]
    where = f'{where}:{f.lineno} and {m.path} ({m.body["file"]}:{m.body["line"]})'
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
    r = run(cx, m)
    isstatic = selfarg(cx, r) is None
    if static != isstatic:
        raise Violation(f'{n} is {"" if isstatic else "not "}static, the stub says otherwise', where)
    ps = [x for x in f.args.posonlyargs + f.args.args]
    if not static:
        ps = ps[1:]
    kw = [x.arg for x in f.args.kwonlyargs]
    names = [x.arg for x in ps]
    mk_ = [text(x.args[2][0]) for x in m.kwonly if x.op == 'agg']
    if names != m.names or set(kw) != set(mk_):
        raise Violation(f'{n} takes ({sig(m.names, mk_)}), the stub says ({sig(names, kw)})', where)
    req = len(names) - len(f.args.defaults)
    if m.required > req:
        raise Violation(f'{n} requires {m.required} arguments, the stub {req}', where)
    tys = [p for i, p in enumerate(m.body['params']) if i != selfarg(cx, r) and 'pyo3::marker::Python<' not in m.body['crate'].types[p['ty']]['s']]
    k = 0
    for x, p in zip(ps, tys):
        a, b = ann(x.annotation), pyty(m.body, m.body['crate'].types[p['ty']])
        k += 1
        if a and b and a != b:
            raise Violation(f'{n}: parameter {x.arg} is a {b}, the stub says {a}', where)
    a, b = ann(f.returns), pyty(m.body, retty(m.body))
    if a and b and a != b:
        raise Violation(f'{n}: the result is a {b}, the stub says {a}', where)
    return f'{k} parameters and the result'


# ------------------------------------------------------------ C18
def c18(cx):
    cx.ob('empty', 'the class can be created without arguments and starts with an empty tokenizer', empty, cx)
    cx.ob('state', 'the pickled state is the serialised tokenizer, and a failure raises', getstate, cx)
    cx.ob('restore', 'restoring replaces the tokenizer by the deserialised state, and a state that cannot be read raises', setstate, cx)
    cx.ob('importable', 'pickle finds the class under the module and name it declares', named, cx)


def need(cx, n):
    its = items(cx)
    if n not in its:
        raise Violation(f'the class has no {n}', P)
    return its[n]


def empty(cx):
    m = need(cx, '__new__')
    if m.required:
        raise Violation(f'__new__ requires {m.required} arguments', m.path)
    r = run(cx, m)
    cx.clear(r)
    panics(cx, r)
    t = r.ret
    if result(m.body):
        t = fld(t, 0, 0)
    t = fld(t, 0, inner(cx))
    und(t)
    if t.op != 'lib' or t.args[0] != 'new':
        raise Undecided(f'the tokenizer created is not recognised: {show(t, 4)[:150]}')
    for x in t.args[2:]:
        if seqlen(x) is not K0:
            raise Violation(f'the new tokenizer is not empty: {show(x, 3)[:100]}', r.where)
    mo = t.args[1]
    if mo.op == 'agg':
        for x in mo.args[2]:
            if x.op in ('one', 'kb') or x.op == 'cat' and x.args:
                raise Violation('the new tokenizer has tokens', r.where)
    elif mo.op == 'lib' and mo.args[0] in ('from', 'new'):
        if any(x.op in ('one', 'kb') or x.op == 'cat' and x.args for x in mo.args[1:]):
            raise Violation('the new tokenizer has tokens', r.where)
    else:
        raise Undecided('the model of the new tokenizer is not recognised')
    return show(t, 3)[:120]


def getstate(cx):
    m = need(cx, '__getstate__')
    r = run(cx, m)
    cx.clear(r)
    panics(cx, r)
    if m.required:
        raise Violation('__getstate__ requires arguments', r.where)
    si = selfarg(cx, r)
    tk = fld(r.p(si), 0, inner(cx))
    J = mk('tojson', tk)
    t = r.ret
    und(t)
    if any(x.op in ('lib', 'disp') and (x.op == 'disp' or x.args[0] in ('to_string', 'clone')) and x.args[-1] is tk for x in subterms(t)):
        raise Undecided('the state is made by a library call')
    if result(m.body):
        cx.same(isok(t), isok(J), '__getstate__ succeeds', r)
        cx.same(restrict(fld(t, 0, 0), isok(J)), fld(J, 0, 0), 'the state', r, isok(J))
    else:
        cx.same(t, fld(J, 0, 0), 'the state', r, isok(J))
    if r.mem(si) is not None and r.mem(si) is not r.p(si) and fld(r.mem(si), 0, inner(cx)) is not tk:
        raise Violation('__getstate__ changes the tokenizer', r.where)
    return show(J, 3)


def setstate(cx):
    m = need(cx, '__setstate__')
    r = run(cx, m)
    cx.clear(r)
    panics(cx, r)
    if m.required != 1:
        raise Violation(f'__setstate__ requires {m.required} arguments', r.where)
    si = selfarg(cx, r)
    state = args(cx, r)[0]
    mem = r.mem(si)
    t = r.ret
    if mem is None:
        raise Violation('__setstate__ does not change the tokenizer', r.where)
    v = fld(mem, 0, inner(cx))
    und(t, v)
    F = {x for y in (t, v) for x in subterms(y) if x.op == 'fromjson'}
    libs = [x for x in subterms(v) if x.op == 'lib']
    changed = [x for x in libs if F and x.args[0] not in ('from_str', 'from', 'new', 'clone', 'to_string', 'into_inner')
               and any(y in F for y in subterms(x))]
    if changed:
        raise Violation(f'the tokenizer read from the state is changed by {changed[0].args[0]}', r.where)
    if libs or any(x.op == 'parse' for x in subterms(v)):
        raise Undecided('the state is read by a library call')
    if len(F) != 1:
        raise Violation(f'the state is deserialised {len(F)} times', r.where)
    F = F.pop()
    if str(F.args[0]) != TOKN:
        raise Violation(f'the state is read as a {F.args[0]}', r.where)
    src = F.args[1]
    while src.op in ('strb', 'bytes', 'items'):
        src = src.args[0]
    ext = [x for x in subterms(src) if x.op == 'call' and x.args[0] in FALLIBLE]
    good = isok(F)
    if ext:
        if len(ext) != 1 or ext[0].args[1] is not state or src is not fld(ext[0], 0, 0):
            raise Violation(f'what is deserialised is not the state: {show(src, 4)[:150]}', r.where)
        good = AND(isok(ext[0]), good)
    elif src is not state:
        raise Violation(f'what is deserialised is not the state: {show(src, 4)[:150]}', r.where)
    if not result(m.body):
        raise Violation('__setstate__ cannot raise', r.where)
    cx.same(isok(t), good, '__setstate__ succeeds', r)
    cx.same(v, fld(F, 0, 0), 'the tokenizer restored', r, good)
    return show(F, 3)


def named(cx):
    out = {}
    for n in ('NAME', 'MODULE'):
        bs = [b for h, b in cx.prog.bodies.items() if b['crate'].id == PY and cx.prog.defs[h]['path'].endswith(f'PyTypeInfo for {P}>::{n}')]
        if len(bs) != 1:
            raise Undecided(f'{n} of the class not found')
        out[n] = cx.run(bs[0], None, expand_consts=True, tag='x').ret
    m = modfn(cx)
    mp = cx.prog.defs[m['def']]['path'] + '::NAME'
    bs = [b for h, b in cx.prog.bodies.items() if b['crate'].id == PY and cx.prog.defs[h]['path'] == mp]
    if len(bs) != 1:
        raise Undecided('the name of the module was not found')
    mod = cx.run(bs[0], None, expand_consts=True, tag='x').ret
    und(mod, *out.values())
    md, nm = (text(mod) or '').rstrip('\0'), text(out['NAME'])
    if out['MODULE'] is NONE:
        raise Violation('the class names no module: pickle looks for it in builtins', P)
    cm = text(fld(out['MODULE'], 1, 0))
    if cm != md:
        raise Violation(f'the class names the module {cm}, and it is registered in {md}', P)
    if nm != 'Tokenizer':
        raise Violation(f'the class is named {nm}', P)
    for n in ('__getstate__', '__setstate__'):
        need(cx, n)
    return f'{cm}.{nm}'
