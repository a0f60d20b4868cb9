"""The command line: option plumbing (C28), training sources (C29), file effects (C15)."""
from train import *
from pruning import contents
from terms import KB, fmul, i2f
import anchors as AN
import terms as TT

T = 'tokengeex::'
FL = T + 'flags::'
CMD = FL + 'TokengeexCmd'
TOKN = T + 'tokenizer::Tokenizer'
EXE = 'Executable'
FILES = ('write', 'remove', 'rename', 'create', 'copy', 'append', 'open')


def f2i(t):
    return TT.lift(('f2i', 'usize'), lambda x: mk('k', int(float(x.args[0]))) if x.op == 'kf' and abs(float(x.args[0])) < 2**31 else TT.declare_nonneg(mk('f2i', x)), t)


class Q:
    pass


def und(*ts, ok=('phi', 'hmax')):
    w = murky(*ts)
    if w and 'loop' not in w:
        raise Undecided(w)


def rec(name, ret=None, mut=()):
    def f(I, a, st, fr, e):
        args = [I.deep(st, x) for x in a]
        I.event('call', st, fr, e, name=name, args=args, ret=None)
        for i in mut:
            I.store(st, a[i], mk(name, *args), fr, e)
        return ret(args) if ret else UNIT
    return f


CONS = {   # subcommand -> type, method, changed arguments, result
    'Prune': ('prune::ModelVocabularyPruner', 'prune', (1,), lambda a: mk('pruneres', *a)),
    'Merge': ('merge::ModelVocabularyMerger', 'merge', (1,), None),
    'Filter': ('filter::VocabularyFilter', 'filter', (1,), None),
    'Mine': ('mine::IdiomMiner', 'mine', (), lambda a: mk('mined', *a)),
    'Generate': ('generate::VocabularyGenerator', 'generate', (), lambda a: mk('generated', *a)),
}
NONE_ = object()
# the options each pass takes, with the value used when one is absent
OPTS = {
    'Prune': dict(vocab_size=NONE_, shrink_factor=0.8, em_subiters=1, dropout=0.01),
    'Merge': dict(num_merges=1000, step=50, scale_factor=0.9, max_token_length=24),
    'Filter': dict(vocab_size=0, min_score='option', force=False),
    'Mine': dict(num_idioms=NONE_),
    'Generate': dict(max_token_length=24, insert_probability=0.1),
}


def start(cx):
    if 'cli' in cx.cache:
        if isinstance(cx.cache['cli'], Exception):
            raise cx.cache['cli']
        return cx.cache['cli']
    try:
        q = cx.cache['cli'] = _start(cx)
    except Undecided as ex:
        cx.cache['cli'] = ex
        raise
    return q


def saved(I, a, st, fr, e):
    """saving a tokenizer, itself judged by C15's obligation 'save'"""
    v, p = I.deep(st, a[0]), I.deep(st, a[1])
    r = mk('saved', v, p)
    I.event('fs', st, fr, e, name='write', path=p, data=fld(mk('tojson', v), 0, 0), ret=r)
    return r


def _start(cx):
    q = Q()
    q.cx = cx
    ms = [b for h, b in cx.prog.bodies.items() if b['crate'].id == EXE and cx.prog.defs[h]['path'] == T + 'main']
    if len(ms) != 1:
        raise Undecided('main not found')
    extra = {}
    env = cx.prog.method(FL + 'Tokengeex', 'from_env_or_exit')
    if env is None:
        raise Undecided('the parser of the command line is not found')
    extra[cx.prog.defs[env['def']]['path']] = lambda I, a, st, fr, e: mk('sym', 'flags')
    for c, (ty, m, mut, ret) in CONS.items():
        b = cx.method(T + ty, m)
        extra[cx.prog.defs[b['def']]['path']] = rec(c, ret, mut)
    b = cx.method(T + 'generate::VocabularyGenerator', 'feed')
    extra[cx.prog.defs[b['def']]['path']] = rec('feed', None, (0,))
    extra[TOKN + '::new'] = lambda I, a, st, fr, e: mk('tok', *[I.deep(st, x) for x in a])
    extra[TOKN + '::save'] = saved
    extra[T + 'processor::Processor::preprocess'] = AN._op('pre')
    for n in ('build_allow_regex', 'build_mine_regex'):
        extra[T + 'regex::' + n] = (lambda n: lambda I, a, st, fr, e: mk('built', n, I.deep(st, a[0])))(n)
    q.r = r = cx.run(ms[0], None, extra=extra, tag='main')
    q.flags = mk('sym', 'flags')
    a = cx.prog.adt_by_path.get(CMD)
    if a is None:
        raise Undecided('the subcommands are not found')
    q.cmds = [v['name'] for v in a['variants']]
    q.sub = fld(q.flags, 0, cx.fnamed(FL + 'Tokengeex', 'subcommand'))
    q.is_ = lambda c: isvar(q.sub, q.cmds.index(c), len(q.cmds))

    def f(c, name):
        if c not in q.cmds:
            raise Undecided(f'no subcommand {c}')
        return fld(fld(q.sub, q.cmds.index(c), 0), 0, cx.fnamed(FL + c, name))
    q.f = f
    q.ev = lambda c, *kinds: [e for e in (filewrites(r.events) if 'fs' in kinds else r.events) if (not kinds or e['kind'] in kinds) and not proves(OR(NOT(e['pc']), NOT(q.is_(c))))]
    return q


def where(e):
    w = e['where']
    return f'{w[0]} ({w[1]}:{w[2]})' if isinstance(w, tuple) else str(w)


def clear(cx, q):
    cx.clear(q.r, only=lambda u: not str(u[0]).startswith('assign') and u[-1] != 'soft')


def eq_(q, e, a, b, what, pc=TRUE):
    if veq(a, b, pc):
        return
    und(restrict(a, pc), restrict(b, pc))
    raise Violation(f'{what}: {show(restrict(a, pc), 8)[:300]} instead of {show(restrict(b, pc), 8)[:300]}', where(e) if e else q.r.where)


def referenced(cx, h):
    """does the code of any other function mention this one?"""
    def walk(n):
        if isinstance(n, dict):
            return n.get('def') == h or any(walk(v) for v in n.values())
        return isinstance(n, list) and any(walk(v) for v in n)
    return any(walk(v) for k, b in cx.prog.bodies.items() if k != h for f, v in b.items() if f != 'def')


def call(q, c):
    es = [e for e in q.ev(c, 'call') if e.get('name') == c]
    if not es and c in CONS:
        ty, m = CONS[c][:2]
        if not referenced(q.cx, q.cx.method(T + ty, m)['def']):
            raise Violation(f'{c.lower()} never runs {ty}::{m}', q.r.where)
    if len(es) != 1:
        raise Undecided(f'{c.lower()}: {len(es)} places run the pass')
    return es[0]


def regexfile(q, e, v, path, what):
    """v is the expression read from the file path"""
    if v.op != 'regex':
        und(v)
        raise Violation(f'{what} is {show(v, 5)[:200]}', where(e))
    t = v.args[0]
    while True:
        if t.op in ('s_trim', 's_trim_end', 's_trim_start', 'items'):
            t = t.args[0]
        elif t.op == 'replace' and len(t.args) == 3 and t.args[2] is EMPTY:
            for ch in (t.args[1].args if t.args[1].op == 'cat' else (t.args[1],)):
                if not (ch.op == 'one' and ch.args[0] in (mk('kc', 10), mk('kc', 13)) or ch in (KB(b'\n'), KB(b'\r'), KB(b'\r\n'))):
                    und(ch)
                    raise Violation(f'{what}: {show(ch)} is removed from the expression', where(e))
            t = t.args[0]
        else:
            break
    if t.op == 'fld' and t.args[0].op == 'fsread':
        if t.args[0].args[1] is not path:
            und(t)
            raise Violation(f'{what} is read from {show(t.args[0].args[1])} instead of {show(path)}', where(e))
        return
    und(t)
    if find(t, lambda x: x.op == 'fsread') or t.op != 'sym':
        raise Undecided(f'{what}: how the expression is read is not recognised: {show(t, 5)[:200]}')


def patterns(cx, q, e, t, lst, kind):
    """t is the expression built from the patterns named in lst"""
    if t.op != 'built':
        und(t)
        raise Undecided(f'the pattern is not built by {kind}: {show(t, 4)[:200]}')
    if t.args[0] != kind:
        raise Violation(f'the pattern is built by {t.args[0]} instead of {kind}', where(e))
    v = t.args[1]
    while v.op == 'items':
        v = v.args[0]
    if not proves(AND(le(seqlen(v), seqlen(lst)), le(seqlen(lst), seqlen(v)))):
        w = LP.mapop(v, 'app', lambda x: mk('sym', 'app', *x.args))
        und(w)
        raise Violation(f'{show(seqlen(w), 5)[:200]} patterns are combined instead of {show(seqlen(lst), 4)}', where(e))
    j = J('pattern')
    x = restrict(at(v, j), lt(j, seqlen(lst)))
    p = at(lst, j)
    n = 0
    for g, l in leaves(x):
        n += 1
        ps = [y for y in subterms(l) if y.op == 'app']
        if not ps:
            if l is mk('regex', p):
                named = [y for y in subterms(g) if y.op == 'ex']
                if not named:
                    raise Violation('a name is never looked up in the table', where(e))
                continue
            und(l)
            raise Violation(f'a pattern not in the table is {show(l, 5)[:200]}', where(e))
        a = ps[0]
        ent = [y for y in subterms(a) if y.op == 'at' and y.args[0].op == 'const']
        if not ent or ent[0].args[1].op != 'first':
            raise Undecided(f'a named pattern is not recognised: {show(l, 5)[:200]}')
        i = ent[0].args[1]
        k = fresh('row')
        c = open_(i, k)
        if not veq(c, eq(fld(at(ent[0].args[0], k), 0, 0), p)) and not veq(c, eq(p, fld(at(ent[0].args[0], k), 0, 0))):
            raise Violation(f'the row of a named pattern is the first with {show(c, 5)[:200]}', where(e))
        fn = a.args[0]
        if fn.op != 'fld' or fn.args[0] is not ent[0] or fn.args[2] != 1:
            raise Violation(f'a named pattern is {show(l, 5)[:200]}', where(e))
    return n


# ------------------------------------------------------------------ C28
def c28(cx):
    for c in ('Generate', 'Prune', 'Filter', 'Merge', 'Regex', 'Mine'):
        cx.ob('options:' + c.lower(), f'every option of {c.lower()} reaches its parameter', options, cx, c)
        cx.ob('accepts:' + c.lower(), f'{c.lower()} gets as far as writing its output when it is given what it needs', accepts, cx, c)
    for c in ('Generate', 'Prune', 'Filter', 'Merge'):
        cx.ob('written:' + c.lower(), 'the tokenizer written keeps processors and special tokens', written, cx, c)
    cx.ob('written:mine', 'every idiom found is written, in order', idioms, cx)
    cx.ob('processors', 'processor names select the documented processors', processors, cx)

    def impl():
        q = start(cx)
        return len(q.cmds)
    try:
        q = start(cx)
        cmds = q.cmds
    except Undecided:
        cmds = ()
    for c in cmds:
        cx.ob('implemented:' + c.lower(), 'the subcommand does something', implemented, cx, c)


def implemented(cx, c):
    q = start(cx)
    es = q.ev(c)
    for e in es:
        if e['kind'] == 'panic' and proves(OR(NOT(q.is_(c)), e['pc'])):
            raise Violation(f'the subcommand {c.lower()} always panics: {show(e["why"], 4) if isinstance(e["why"], T_) else e["why"]}', where(e))
    if not [e for e in es if e['kind'] in ('fs', 'print', 'call')]:
        clear(cx, q)
        raise Violation(f'the subcommand {c.lower()} has no effect', q.r.where)
    return f'{len(es)} effects'


def accepts(cx, c):
    """no demand on the options stands in the way, whether those that may be left out are given or not"""
    q = start(cx)
    clear(cx, q)
    fs = cx.fty(FL + c)
    es = [e for e in q.ev(c, 'fs') if e['name'] == 'write']
    if not es:
        raise Undecided('0 writes')
    n = 0
    for given in (False, True):
        base = q.is_(c)
        for name, ty in fs:
            v = q.f(c, name)
            if 'option::Option<' in ty and (c, name) != ('Regex', 'output'):
                base = AND(base, is_some(v) if given else NOT(is_some(v)))
            elif '::Vec<' in ty:
                base = AND(base, eq(seqlen(v), mk('k', 2) if given else K1 if name in ('train', 'pattern') else K0))
        for e in es:
            if AND(base, e['pc']) is not FALSE and not proves(NOT(AND(base, e['pc']))):
                n += 1
                break
        else:
            raise Violation(f'{c.lower()} refuses to work when {show(base, 4)[:300]}', where(es[0]))
    return f'{n} kinds of invocations accepted'


T_ = type(KB(b''))


def options(cx, c):
    q = start(cx)
    clear(cx, q)
    r = q.r
    if c == 'Regex':
        ws = [e for e in q.ev(c, 'fs') if e['name'] == 'write']
        if len(ws) != 1:
            raise Undecided(f'{len(ws)} writes')
        e = ws[0]
        d = e['data']
        while d.op in ('restr', 'items'):
            d = d.args[0]
        out = q.f(c, 'output')
        pc = AND(q.is_(c), is_some(out))
        n = patterns(cx, q, e, d, q.f(c, 'pattern'), 'build_allow_regex')
        return f'output and patterns, {n} kinds of patterns'
    e = call(q, c)
    self_ = e['args'][0]
    ty = T + CONS[c][0]
    n = 0
    if c == 'Generate':
        self_, fed = generator(q, self_)
    for name, d in OPTS[c].items():
        v = fld(self_, 0, cx.fnamed(ty, name))
        o = q.f(c, name)
        if d is NONE_ or d == 'option':
            want = o
        else:
            k = (TRUE if d else FALSE) if isinstance(d, bool) else KF(d) if isinstance(d, float) else mk('k', d)
            want = ite(is_some(o), fld(o, 1, 0), k)
            if isinstance(d, bool):
                want = AND(is_some(o), atom(fld(o, 1, 0)))
        eq_(q, e, v, want, f'{c.lower()}: {name}')
        n += 1
    if c == 'Merge':
        regexfile(q, e, fld(self_, 0, cx.fnamed(ty, 'allow')), q.f(c, 'allow'), 'the pattern of allowed tokens')
        n += 1
    if c == 'Mine':
        patterns(cx, q, e, fld(self_, 0, cx.fnamed(ty, 'pattern')), q.f(c, 'pattern'), 'build_mine_regex')
        n += 1
    if c == 'Generate':
        eq_(q, e, e['args'][1], q.f(c, 'vocab_size'), 'generate: vocab_size')
        for name, o in (('allow', 'allow'), ('split', 'split')):
            v = fld(self_, 0, cx.fnamed(ty, name))
            o = q.f(c, o)
            eq_(q, e, restrict(v, NOT(is_some(o))), NONE, f'generate: {name} when absent', NOT(is_some(o)))
            x = restrict(v, is_some(o))
            for g, y in leaves(x):
                if AND(g, is_some(o)) is FALSE:
                    continue
                if y is NONE:
                    raise Violation(f'generate: {name} is ignored when {show(g, 4)[:200]}', where(e))
                regexfile(q, e, fld(y, 1, 0), fld(o, 1, 0), f'generate: {name}')
            n += 1
        n += toklists(cx, q, e, self_)
    out = [w for w in q.ev(c, 'fs') if w['name'] == 'write']
    if len(out) != 1:
        raise Undecided(f'{len(out)} writes')
    eq_(q, out[0], out[0]['path'], q.f(c, 'output'), f'{c.lower()}: the output file')
    if 'input' in [n_ for n_, _ in cx.fty(FL + c)]:
        t = source_tok(q, c)
        eq_(q, e, e['args'][1], inner(cx, t)[0], f'{c.lower()}: the model worked on')
    return f'{n} options'


def toklists(cx, q, e, self_):
    """added and suggested tokens are those of the files given"""
    for name, o in (('added_tokens', 'added'), ('suggested_tokens', 'suggested')):
        v = fld(self_, 0, cx.fnamed(T + CONS['Generate'][0], name))
        lst = q.f('Generate', o)
        ok_ = any(veq(v, bigcat(seqlen(lst), (j := J('file')), fld(mk('fromjson', x.args[0], fld(mk('fsread', y.args[0], at(lst, j)), 0, 0)), 0, 0)))
                  for x in subterms(v) if x.op == 'fromjson' for y in subterms(x) if y.op == 'fsread')
        if not ok_:
            und(v)
            paths = {y.args[1] for y in subterms(v) if y.op == 'fsread'}
            for p in paths:
                if not find(p, lambda x: x is lst):
                    raise Violation(f'generate: {name} are read from {show(p)} instead of {show(lst)}', where(e))
            raise Violation(f'generate: {name} are {show(v, 6)[:300]} instead of all tokens of all files, in order', where(e))
    return 2


def asked(cx, c, *names):
    """what is asked for on the command line is what the pass goes by (defaults aside)"""
    q = start(cx)
    clear(cx, q)
    e = call(q, c)
    self_ = e['args'][0]
    ty = T + CONS[c][0]
    if c == 'Generate':
        self_, fed = generator(q, self_)
    for name in names:
        if name == 'lists':
            toklists(cx, q, e, self_)
            continue
        if name == 'size':
            eq_(q, e, e['args'][1], q.f(c, 'vocab_size'), 'generate: vocab_size')
            continue
        v = fld(self_, 0, cx.fnamed(ty, name))
        if name in ('pattern',):
            patterns(cx, q, e, v, q.f(c, 'pattern'), 'build_mine_regex')
            continue
        o = q.f(c, name)
        if name == 'allow' and c == 'Merge':
            regexfile(q, e, v, o, 'merge: allow')
            continue
        if name in ('allow', 'split'):
            on = is_some(o)
            x = restrict(v, on)
            for g, y in leaves(x, on):
                if y is NONE:
                    und(v)
                    raise Violation(f'{c.lower()}: {name} is ignored when {show(g, 4)[:200]}', where(e))
                regexfile(q, e, fld(y, 1, 0), fld(o, 1, 0), f'{c.lower()}: {name}')
            continue
        d = OPTS[c][name]
        if d is NONE_ or d == 'option':
            eq_(q, e, v, o, f'{c.lower()}: {name}')
        elif isinstance(d, bool):
            eq_(q, e, v, AND(is_some(o), atom(fld(o, 1, 0))), f'{c.lower()}: {name}')
        else:
            eq_(q, e, v, fld(o, 1, 0), f'{c.lower()}: {name}', is_some(o))
    return f'{c.lower()}: {", ".join(names)} as given'


def passopts(c, *names):
    def f(cx):
        cx.ob('asked', f'{", ".join(names)}: the {c.lower()} pass goes by what it is given', asked, cx, c, *names)
    return f


def generator(q, g):
    """the generator before it was fed, and what it is fed: (self, [(loop or None, pc, samples)])"""
    r = q.r
    if g in r.I.finof:
        lid, loc = r.I.finof[g]
        l = r.loops[lid]
        d = l.vars[loc]
        nx = d['next']
        if l.exits or l.n is None:
            raise Undecided('the loop over the sources is left early')
        fed = []
        for g, x in leaves(nx):
            ys = []
            while x.op == 'feed':
                ys.insert(0, x.args[1])
                x = x.args[0]
            if x is not d['phi']:
                und(x)
                raise Undecided(f'how the generator is fed is not recognised: {show(x, 4)[:200]}')
            if len(ys) > 1:
                raise Violation(f'a source is used {len(ys)} times', r.where)
            fed.append((g, ys[0] if ys else EMPTY))
        x = fed[-1][1]
        for g, y in fed[:-1]:
            x = ite(g, y, x)
        return d['init'], (l, [x])
    fed = []
    while g.op == 'feed':
        fed.insert(0, g.args[1])
        g = g.args[0]
    if g.op != 'agg':
        und(g)
        raise Undecided(f'how the generator is made is not recognised: {show(g, 4)[:200]}')
    return g, (None, fed)


def source_tok(q, c):
    """the tokenizer read from the input file"""
    p = q.f(c, 'input')
    e = call(q, c)
    xs = {x for t in e['args'] for x in subterms(t) if x.op == 'fromjson'}
    # the library reads a tokenizer from a file the same way everywhere
    good = [x for x in xs if find(x, lambda y: y.op == 'fsread' and y.args[1] is p)]
    bad = [x for x in xs if x not in good]
    if not good:
        und(*xs)
        if bad:
            raise Violation(f'{c.lower()}: the tokenizer is read from {show(bad[0], 6)[:200]} instead of {show(p)}', where(e))
        raise Undecided(f'{c.lower()}: how the input is read is not recognised')
    good.sort(key=lambda x: x.id)
    return fld(good[0], 0, 0)


def inner(cx, t):
    """the parts of a tokenizer, as taken apart by the library"""
    r = cx.run(cx.method(TOKN, 'into_inner', crate=LIB), None)
    v = subst_all(r.ret, {r.p(0): t})
    if v.op != 'agg' or len(v.args[2]) != 3:
        raise Undecided('the parts of a tokenizer are not recognised')
    return v.args[2]


def unit(t):
    while t.op in ('items',):
        t = t.args[0]
    return t


def written(cx, c):
    q = start(cx)
    clear(cx, q)
    ws = [e for e in q.ev(c, 'fs') if e['name'] == 'write']
    if len(ws) != 1:
        raise Undecided(f'{len(ws)} writes')
    w = ws[0]
    toks = [x for x in subterms(w['data']) if x.op == 'tok']
    if len(toks) != 1:
        und(w['data'])
        src = [x for x in subterms(w['data']) if x.op == 'fromjson']
        if not toks and not any(x.op in ('Prune', 'Merge', 'Filter', 'generated') for x in subterms(w['data'])):
            raise Violation(f'{c.lower()}: the result of the pass is not written: {show(w["data"], 5)[:200]}', where(w))
        raise Undecided(f'{c.lower()}: what is written is not recognised: {show(w["data"], 4)[:200]}')
    if w['data'] is not fld(mk('tojson', toks[0]), 0, 0):
        und(w['data'])
        raise Violation(f'{c.lower()}: {show(w["data"], 5)[:200]} is written', where(w))
    m, ps, ss = toks[0].args
    e = call(q, c)
    if c == 'Generate':
        eq_(q, w, unit(ss), q.f(c, 'special'), 'generate: the special tokens written')
        gen = mk('generated', *e['args'])
        if not find(m, lambda x: x is gen):
            und(m)
            raise Violation('generate: the vocabulary written is not the one generated', where(w))
        return 'generated vocabulary, processors and special tokens of the options'
    t = source_tok(q, c)
    mm, pp, sp = inner(cx, t)
    if m is not mk(c, *e['args']):
        und(m)
        raise Violation(f'{c.lower()}: the model written is {show(m, 5)[:200]}', where(w))
    eq_(q, w, unit(ps), unit(pp), f'{c.lower()}: the processors written')
    eq_(q, w, unit(ss), unit(sp), f'{c.lower()}: the special tokens written')
    return 'model of the pass, processors and special tokens of the input'


def idioms(cx):
    q = start(cx)
    clear(cx, q)
    ws = [e for e in q.ev('Mine', 'fs') if e['name'] == 'write']
    if len(ws) != 1:
        raise Undecided(f'{len(ws)} writes')
    w = ws[0]
    e = call(q, 'Mine')
    found = mk('mined', *e['args'])
    js = [x for x in subterms(w['data']) if x.op == 'tojson']
    if len(js) != 1 or w['data'] is not fld(js[0], 0, 0):
        und(w['data'])
        raise Undecided(f'what is written is not recognised: {show(w["data"], 4)[:200]}')
    v = subst_all(unit(js[0].args[0]), {found: mk('sym', 'found')})
    found = mk('sym', 'found')
    und(v)
    if not find(v, lambda x: x is found):
        raise Violation(f'mine writes {show(v, 5)[:200]} instead of the idioms found', where(w))
    j = J('idiom')
    if not veq(v, bigcat(seqlen(found), j, one(fld(at(found, j), 0, 0)))):
        if not proves(AND(le(seqlen(v), seqlen(found)), le(seqlen(found), seqlen(v)))):
            raise Violation(f'mine writes {show(seqlen(v), 6)[:200]} idioms instead of all found', where(w))
        if not veq(at(v, j), fld(at(found, j), 0, 0), lt(j, seqlen(found))):
            raise Violation(f'idiom j of the output is {show(at(v, j), 6)[:200]}', where(w))
    return 'all idioms found, in order'


PW = T + 'processor::ProcessorWrapper'
UP = T + 'processor::UnicodeProcessor'


def processors(cx):
    q = start(cx)
    clear(cx, q)
    ws = [e for e in q.ev('Generate', 'fs') if e['name'] == 'write']
    toks = [x for w in ws for x in subterms(w['data']) if x.op == 'tok']
    if not toks:
        raise Undecided('what is written is not recognised')
    ps = unit(toks[0].args[1])
    lst = q.f('Generate', 'processor')
    eq_(q, ws[0], seqlen(ps), seqlen(lst), 'the number of processors')
    j = J('processor')
    x = at(ps, j)
    crlf = cx.vidx(PW, 'Crlf')
    uni = cx.vidx(PW, 'Unicode')
    n = 0
    for name, v in (('crlf', None), ('nfc', 'Nfc'), ('nfd', 'Nfd'), ('nfkc', 'Nfkc'), ('nfkd', 'Nfkd')):
        c = AND(lt(j, seqlen(lst)), eq(at(lst, j), KB(name.encode())))
        y = restrict(x, c)
        bad = [(g, z) for g, z in leaves(y, c) if g is not FALSE and not (
            z.op == 'agg' and (z.args[1] == crlf if v is None else z.args[1] == uni and z.args[2][0].op == 'agg' and z.args[2][0].args[1] == cx.vidx(UP, v)))]
        for g, z in bad:
            und(z)
            if z.op == 'agg' and not z.args[2] or z.op == 'agg' and z.args[2][0].op == 'agg':
                raise Violation(f'the name {name} selects {show(z)}', where(ws[0]))
            raise Undecided(f'what the name {name} selects is not recognised: {show(z, 5)[:200]}')
        n += 1
    return f'{n} names'


# ------------------------------------------------------------------ C29
def entries(A):
    """a list with at most one entry per step: the steps, the entry, when it is there; () for the empty list"""
    if A is EMPTY:
        return ()
    if A.op == 'slice' and A.args[1] is K0:
        o = Q()
        o.n, o.j, o.must = A.args[2], fresh('entry'), TRUE
        o.el = at(A.args[0], o.j)
        return o
    if A.op != 'bc':
        return None
    o = Q()
    o.n = A.args[2][0]
    o.j = fresh('entry')
    o.must, o.el = FALSE, None
    for g, l in leaves(open_(A, o.j)):
        if l is EMPTY:
            continue
        if l.op != 'one' or o.el is not None and o.el is not l.args[0]:
            return None
        o.must, o.el = OR(o.must, g), l.args[0]
    return o if o.el is not None else ()


def c29(cx):
    for c in ('Generate', 'Prune', 'Merge', 'Mine'):
        cx.ob('samples:' + c.lower(), f'{c.lower()} trains on the processed samples of all sources', samples, cx, c)
    cx.ob('format', 'a source has two or three parts and a valid proportion', format_, cx)


def smaller(x, a, b, pc):
    """is x the smaller of a and b wherever pc holds?"""
    return veq(x, imin(a, b), pc) or veq(x, a, pc) and proves(OR(NOT(pc), le(a, b))) or veq(x, b, pc) and proves(OR(NOT(pc), le(b, a)))


def samples(cx, c):
    q = start(cx)
    clear(cx, q)
    r = q.r
    e = call(q, c)
    train = q.f(c, 'train')
    if c == 'Generate':
        _, (l, fed) = generator(q, e['args'][0])
        toks = [x for w in q.ev(c, 'fs') for x in (subterms(w['data']) if w.get('data') is not None else ()) if x.op == 'tok']
        procs = unit(toks[0].args[1]) if toks else None
        if l is None:
            if not fed and not referenced(cx, cx.method(T + 'generate::VocabularyGenerator', 'feed')['def']):
                raise Violation('the generator is never fed', where(e))
            if len(fed) != 1:
                raise Undecided('how the generator is fed is not recognised')
            S = fed[0]
        else:
            if len(fed) != 1:
                raise Violation(f'every source is used {len(fed)} times', where(e))
            eq_(q, e, l.n, seqlen(train), 'the number of sources used')
            S = bigcat(l.n, l.j, fed[0])
    else:
        S = e['args'][-1]
        procs = unit(inner(cx, source_tok(q, c))[1]) if c != 'Mine' else EMPTY
    if procs is None:
        raise Undecided('the processors are not found')
    while S.op in ('shuffled', 'items', 'sorted', 'rev'):
        S = S.args[0]
    if S.op != 'bc':
        und(S)
        raise Violation(f'{c.lower()}: the samples are {show(S, 5)[:200]}', where(e))
    n = S.args[2][0]
    if not veq(n, seqlen(train)):
        und(n)
        raise Violation(f'{c.lower()}: {show(n, 5)[:200]} sources are used instead of all {show(seqlen(train), 5)}', where(e))
    i = fresh('source')
    c0 = lt(i, n)
    src = at(train, i)
    body = open_(S, i)
    sp = [x for x in subterms(body) if x.op == 'splitp']
    if not sp or len(set(sp)) != 1:
        und(body)
        raise Undecided(f'{c.lower()}: how a file is split is not recognised: {show(body, 5)[:200]}')
    P = sp[0]
    b = J('byte')
    if not veq(open_(P.args[1], b), lt(b, K1)):
        und(open_(P.args[1], b))
        raise Violation(f'{c.lower()}: samples end where {show(open_(P.args[1], b))}', where(e))
    pieces = mk('split', src, KB(b':'))
    rd = P.args[0]
    if rd.op != 'fld' or rd.args[0].op != 'fsread':
        und(rd)
        raise Violation(f'{c.lower()}: samples are taken from {show(rd, 5)[:200]}', where(e))
    if rd.args[0].args[1] is not at(pieces, K1):
        und(rd.args[0].args[1])
        raise Violation(f'{c.lower()}: the file read is {show(rd.args[0].args[1])} instead of the part after the name', where(e))
    k = J('part')
    part = at(P, k)
    F = bigcat(seqlen(P), k, ite(lt(seqlen(part), K1), EMPTY, one(part)))
    N = seqlen(F)
    m = 0
    three = lt(mk('k', 2), seqlen(pieces))
    pp = fld(mk('parse', 'f64', at(pieces, mk('k', 2))), 0, 0)
    ps = [x for x in subterms(body) if x.op == 'parse']
    if ps:
        if ps[0].args[0] == 'f32':
            raise Violation(f'{c.lower()}: the proportion is read in single precision', where(e))
        pp = fld(mk('parse', ps[0].args[0], at(pieces, mk('k', 2))), 0, 0)
    seen = set()
    for g, A in leaves(body, c0):
        if g is FALSE:
            continue
        es = entries(A)
        if es is None:
            und(A)
            raise Undecided(f'{c.lower()}: the samples of a source are not recognised: {show(A, 5)[:200]}')
        if not es:
            if proves(OR(NOT(g), lt(N, K1))):
                continue
            und(A)
            raise Violation(f'{c.lower()}: a source gives no samples when {show(g, 5)[:200]}', where(e))
        x = es
        m += 1
        for t3, p in ((True, pp), (False, KF(1.0))):
            gg = AND(g, three if t3 else NOT(three))
            if proves(NOT(gg)):
                continue
            seen.add(t3)
            prod = fmul(i2f(N), p)
            want = imin(N, mk('f2i', prod) if p is pp else f2i(i2f(N)))
            lim = [f2i(prod), f2i(fmul(p, i2f(N)))]
            if not any(smaller(x.n, N, m_, gg) for m_ in lim) and (t3 or not veq(x.n, N, gg) and not veq(x.n, seqlen(P), gg)):
                und(x.n)
                raise Violation(f'{c.lower()}: {show(restrict(x.n, gg), 9)[:400]} samples are used of a source with {"a" if t3 else "no"} proportion', where(e))
        whole = not veq(x.n, N, g) and veq(x.n, seqlen(P), g)     # a step for every part, the empty ones skipped
        item = at(P if whole else F, x.j)
        want = foldseq(procs, item, lambda p, s: mk('pre', p, s)) if procs is not EMPTY else item
        if not veq(x.el, want, AND(lt(x.j, x.n), x.must)):
            und(x.el)
            raise Violation(f'{c.lower()}: a sample is {show(x.el, 8)[:300]} instead of {show(want, 8)[:300]}', where(e))
        drop = AND(g, lt(x.j, x.n), NOT(x.must))
        if whole and not proves(OR(NOT(x.must), NOT(lt(seqlen(item), K1)), lt(seqlen(want), K1))):
            raise Violation(f'{c.lower()}: empty samples are used', where(e))
        if drop is not FALSE and not proves(OR(NOT(drop), lt(seqlen(want), K1), lt(seqlen(item), K1))):
            und(drop)
            raise Violation(f'{c.lower()}: a sample is dropped when {show(drop, 6)[:200]}', where(e))
    if len(seen) != 2:
        raise Undecided(f'{c.lower()}: proportions not recognised')
    return f'{m} forms of sources'


def format_(cx):
    q = start(cx)
    clear(cx, q)
    n = 0
    for c in ('Generate', 'Prune', 'Merge', 'Mine'):
        rs = [e for e in q.ev(c, 'fs') if e['name'] == 'read' and find(e['path'], lambda x: x.op == 'split')]
        if len(rs) != 1:
            raise Undecided(f'{c.lower()}: {len(rs)} places read a source')
        e = rs[0]
        sp = [x for x in subterms(e['path']) if x.op == 'split'][0]
        k = seqlen(sp)
        bad = OR(lt(k, mk('k', 2)), lt(mk('k', 3), k))
        if not proves(OR(NOT(e['pc']), NOT(bad))):
            und(e['pc'])
            raise Violation(f'{c.lower()}: a source with fewer than two or more than three parts is accepted', where(e))
        n += 1
    return f'{n} commands'


# ------------------------------------------------------------------ C15
MUTATORS = ('std::fs::write', 'std::fs::remove_file', 'std::fs::remove_dir', 'std::fs::remove_dir_all', 'std::fs::rename', 'std::fs::copy', 'std::fs::create_dir',
            'std::fs::create_dir_all', 'std::fs::hard_link', 'std::fs::set_permissions', 'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::File::set_len',
            'std::fs::OpenOptions::open', 'std::process::Command::new')


def c15(cx):
    for c in ('Generate', 'Prune', 'Filter', 'Merge', 'Regex', 'Mine'):
        cx.ob('output:' + c.lower(), f'{c.lower()} writes its output only, once, and last', output, cx, c)
    cx.ob('save', 'saving computes the contents, writes once and reports failures', save, cx)
    cx.ob('sites', 'no other code writes files', sites, cx)


def effects(q, c):
    return [e for e in q.ev(c, 'fs') if e['name'] != 'read']


def output(cx, c):
    q = start(cx)
    clear(cx, q)
    ws = effects(q, c)
    if not ws:
        raise Violation(f'{c.lower()} writes nothing', q.r.where)
    out = q.f(c, 'output')
    path = fld(out, 1, 0) if c == 'Regex' else out
    for w in ws:
        if w['name'] != 'write':
            raise Violation(f'{c.lower()}: {w["name"]} of {show(w["path"], 5)}', where(w))
        eq_(q, w, w['path'], path, f'{c.lower()}: the file written')
        if w['loops']:
            raise Violation(f'{c.lower()} writes repeatedly', where(w))
        if c == 'Regex' and not proves(OR(NOT(w['pc']), is_some(out))):
            raise Violation('regex: a file is written without an output', where(w))
        failed = NOT(isvar(w['ret'], 0, 2))
        for e in q.ev(c):
            if e['seq'] <= w['seq']:
                if e['kind'] == 'call' and e.get('name') in CONS and e.get('ret') is None and CONS[e['name']][3] and e['name'] == 'Prune':
                    done = isvar(mk('pruneres', *e['args']), 0, 2)
                    if not proves(OR(NOT(AND(w['pc'], e['pc'])), done)):
                        und(w['pc'])
                        raise Violation(f'{c.lower()} writes its output although the pass failed', where(w))
                if e['kind'] == 'fs' and e['name'] == 'read' and not e['loops']:
                    if not proves(OR(NOT(AND(w['pc'], e['pc'])), isvar(e['ret'], 0, 2))):
                        und(w['pc'])
                        raise Violation(f'{c.lower()} writes its output although {show(e["path"], 4)} could not be read', where(w))
                continue
            if e['kind'] == 'fs' and e['name'] == 'read':
                raise Violation(f'{c.lower()} reads {show(e["path"], 4)} after writing', where(e))
            if e['kind'] == 'panic' and not proves(OR(NOT(AND(w['pc'], e['pc'])), failed)):
                und(w['pc'], e['pc'])
                raise Violation(f'{c.lower()} can fail after writing: {show(e["why"], 4) if isinstance(e["why"], T_) else str(e["why"])[:200]}', where(e))
        reported = OR(*[e['pc'] for e in q.ev(c, 'panic') if e['seq'] > w['seq']])
        if not proves(OR(NOT(AND(w['pc'], failed)), reported)):
            rt = q.r.ret
            if rt is UNIT or not proves(OR(NOT(AND(w['pc'], failed)), reported, NOT(isvar(rt, 0, 2)))):
                raise Violation(f'{c.lower()}: a failure to write is not reported', where(w))
    for a in range(len(ws)):
        for b in range(a):
            if not proves(NOT(AND(ws[a]['pc'], ws[b]['pc']))):
                und(ws[a]['pc'], ws[b]['pc'])
                raise Violation(f'{c.lower()} writes twice', where(ws[a]))
    return f'{len(ws)} write of {show(path)}'


def save(cx):
    r = cx.run(cx.method(TOKN, 'save', crate=LIB), None)
    cx.clear(r)
    fs = filewrites(r.events)
    ws = [e for e in fs if e['name'] != 'read']
    okj = isvar(mk('tojson', r.p(0)), 0, 2)
    for w in ws:
        if w['name'] in ('fs::remove_file', 'fs::rename', 'fs::remove_dir', 'fs::remove_dir_all'):
            raise Violation(f'saving does {w["name"]} of {show(w["path"], 5)[:100]}', where(w))
        if not veq(w['path'], r.p(1)) and not find(w['path'], lambda x: x is r.p(1)):
            und(w['path'])
            raise Violation(f'saving writes to {show(w["path"])}', where(w))
        if not proves(OR(NOT(w['pc']), okj)):
            raise Violation(f'saving does {w["name"]} before the contents are known to be complete', where(w))
    if len(ws) != 1:
        if all(w['name'] != 'write' for w in ws):
            raise Undecided(f'how the file is written is not recognised: {", ".join(w["name"] for w in ws)}')
        raise Violation(f'saving writes {len(ws)} times', where(ws[-1]) if ws else r.where)
    w = ws[0]
    if w['loops'] or w['name'] != 'write':
        raise Violation(f'saving does {w["name"]}', where(w))
    if not veq(w['path'], r.p(1)):
        und(w['path'])
        raise Violation(f'saving writes to {show(w["path"])}', where(w))
    okc = isvar(mk('tojson', r.p(0)), 0, 2)
    for g, d in leaves(w['data'], w['pc']):
        if d is fld(mk('tojson', r.p(0)), 0, 0) or proves(NOT(AND(g, w['pc']))):
            continue
        und(d)
        if proves(OR(NOT(AND(g, w['pc'])), NOT(okc))):
            raise Violation(f'{show(d, 4)[:200]} is written when the contents cannot be computed', where(w))
        raise Undecided(f'the contents are not recognised: {show(d, 5)[:200]}')
    okc = isvar(mk('tojson', r.p(0)), 0, 2)
    okw = isvar(w['ret'], 0, 2)
    if not proves(OR(NOT(w['pc']), okc)):
        raise Violation('something is written although the contents could not be computed', where(w))
    for e in r.ev('panic'):
        raise Violation(f'saving can panic instead of returning an error: {show(e["why"], 4) if isinstance(e["why"], T_) else e["why"]}', where(e))
    good = isvar(r.ret, 0, 2)
    if not proves(OR(NOT(good), w['pc'])):
        und(good, w['pc'])
        raise Violation(f'saving reports success without writing when {show(restrict(NOT(w["pc"]), okc), 6)[:200]}', r.where)
    if not proves(OR(NOT(good), AND(okc, okw))):
        und(good)
        raise Violation('saving reports success although it failed', r.where)
    if not proves(OR(NOT(okc), NOT(okw), good)):
        raise Violation('saving reports a failure although it succeeded', r.where)
    return 'one write, after the contents are complete; both failures returned'


def callees(cx):
    """every call site outside the standard library: (body, node, path)"""
    for h, b in cx.prog.bodies.items():
        stack = [v for k, v in b.items() if k not in ('crate',)]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                if 'callee' in x and isinstance(x['callee'], dict):
                    d = (x['callee'].get('res') or {}).get('def') or x['callee'].get('def')
                    df = cx.prog.defs.get(d)
                    if df:
                        yield b, x, df
                stack += list(x.values())
            elif isinstance(x, list):
                stack += x
            elif isinstance(x, tuple):
                stack += list(x)


def sites(cx):
    q = start(cx)
    rs = [q.r, cx.run(cx.method(TOKN, 'save', crate=LIB), None)]
    seen = set()
    for r in rs:
        for e in r.events:
            if e['kind'] == 'fs' and e['name'] != 'read':
                seen.add((e['where'][0].split('::{closure')[0], e['where'][2]))
    n = k = 0
    for b, x, df in callees(cx):
        n += 1
        p = df['path']
        if p in MUTATORS or p.startswith('std::fs::') and any(w in p for w in ('write', 'create', 'remove', 'rename')):
            k += 1
            me = cx.prog.defs[b['def']]['path'].split('::{closure')[0]
            if (me, x.get('l')) not in seen:
                raise Violation(f'{me} calls {p}', f'{me} (line {x.get("l")})')
    if k == 0:
        raise Undecided('no call site writes a file')
    return f'{n} call sites, {k} write'
