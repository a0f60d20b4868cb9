"""The pattern table and the expressions built from it (C27)."""
import os, re as pyre
from train import *
import rxsyntax as RX
import dump

T = 'tokengeex::'
EXE = 'Executable'
RXM = T + 'regex::'


class Reordered(Exception):
    pass


def unroll(t):
    """the value after all steps of a loop with a known number of steps"""
    n, vals = t.args[2][0], list(t.args[2][1:])
    if n.op != 'k' or n.args[0] > 64:
        raise Undecided(f'a loop of unknown length: {show(t, 4)[:200]}')
    for k in range(n.args[0]):
        vals = list(open_(t, *vals, K(k)).args[2])
    return vals[0]


def text(t):
    """a known string, or a list of characters and holes"""
    if t is EMPTY:
        return []
    if t.op == 'fix':
        return text(unroll(t))
    if t.op == 'disp':
        return text(mk('restr', t.args[0]))
    if t.op == 'kb':
        return list(t.args[0].decode('utf-8'))
    if t.op == 'cat':
        out = []
        raw = b''
        for p in t.args:
            if p.op == 'kb':
                raw += p.args[0]
                continue
            if p.op == 'one' and p.args[0].op == 'kc':
                raw += chr(p.args[0].args[0]).encode()
                continue
            out += list(raw.decode('utf-8'))
            raw = b''
            out += text(p)
        return out + list(raw.decode('utf-8'))
    if t.op == 'one' and t.args[0].op == 'kc':
        return [chr(t.args[0].args[0])]
    if t.op == 'restr' and t.args[0].op == 'regex':
        return text(t.args[0].args[0])
    if t.op == 'restr':
        return [t.args[0]]
    if t.op == 'regex':
        return text(t.args[0])
    if t.op == 'join':
        parts, sep = items_(t.args[0]), text(t.args[1])
        out = []
        for i, p in enumerate(parts):
            out += (sep if i else []) + text(p)
        return out
    if t.op == 'bc':
        return [c for p in pieces(t) for c in text(p)]
    if t.op == 'escaped' and t.args[0].op == 'kb':
        return list(pyre.sub(r'([\\.+*?()|\[\]{}^$#&~-])', r'\\\1', t.args[0].args[0].decode()))
    raise Undecided(f'not a known text: {show(t, 4)[:200]}')


def pieces(t):
    n = t.args[2][0]
    if n.op != 'k':
        raise Undecided(f'a list of unknown length: {show(t, 4)[:200]}')
    return [open_(t, K(i)) for i in range(n.args[0])]


def items_(t):
    while t.op == 'items':
        t = t.args[0]
    if t is EMPTY:
        return []
    if t.op == 'one':
        return [t.args[0]]
    if t.op == 'fix':
        return items_(unroll(t))
    if t.op == 'rev':
        return items_(t.args[0])[::-1]
    if t.op in ('sorted', 'shuffled') and len(items_(t.args[0])) > 1:
        raise Reordered()
    if t.op in ('sorted', 'shuffled'):
        return items_(t.args[0])
    if t.op == 'cat':
        return [x for p in t.args for x in items_(p)]
    if t.op == 'bc':
        return [x for p in pieces(t) for x in items_(p)]
    raise Undecided(f'not a known list: {show(t, 4)[:200]}')


class Row:
    pass


def str_(t):
    if t.op == 'kb' or t is EMPTY or t.op in ('cat', 'one', 'join', 'bc'):
        x = text(t)
        if all(isinstance(c, str) for c in x):
            return ''.join(x)
    raise Undecided(f'not a known text: {show(t, 4)[:200]}')


def table(cx):
    if 'patterns' in cx.cache:
        return cx.cache['patterns']
    bs = [b for h, b in cx.prog.bodies.items() if cx.prog.defs[h]['path'] == RXM + 'PATTERNS' and b['crate'].id == EXE]
    if len(bs) != 1:
        raise Undecided('the pattern table is not found')
    r = cx.run(bs[0], None, expand_consts=True, tag='expanded')
    rows = []
    for x in items_(r.ret):
        if x.op != 'agg' or len(x.args[2]) != 4:
            raise Undecided(f'a row of the pattern table is not recognised: {show(x, 3)}')
        o = Row()
        n, f, y, no = x.args[2]
        o.name = str_(n)
        o.yes, o.no = [str_(z) for z in items_(y)], [str_(z) for z in items_(no)]
        o.where = f'{RXM}PATTERNS, row {o.name!r} (src/regex.rs)'
        b = cx.prog.bodies.get(f.args[0]) if f.op in ('fn', 'clos') else None
        if b is None:
            raise Undecided(f'the pattern of {o.name} is not recognised: {show(f, 3)}')
        rr = cx.run(b, None, expand_consts=True, tag='expanded')
        if rr.I.unk:
            raise Undecided(f'the pattern of {o.name}: calls {rr.I.unk[0][0]}, which is not modelled')
        if rr.ret.op != 'regex':
            raise Undecided(f'the pattern of {o.name} is not recognised: {show(rr.ret, 4)[:200]}')
        o.text = str_(rr.ret.args[0])
        rows.append(o)
    cx.cache['patterns'] = rows
    return rows


def c27(cx):
    cx.ob('names', 'pattern names are unique and not empty', uniq, cx)
    cx.ob('valid', 'every pattern is a valid expression', valid, cx)
    cx.ob('empty', 'no pattern matches the empty text', empty, cx)
    cx.ob('examples', 'every pattern accepts its examples and none of its counter-examples', examples, cx)
    cx.ob('documented', 'every pattern name the documentation uses is in the table', documented, cx)
    cx.ob('allow', 'the allow expression accepts exactly what one part matches whole', built, cx, 'build_allow_regex', [('^',), None, ('$',)])
    cx.ob('mine', 'the mining expression is the alternation of the parts in order', built, cx, 'build_mine_regex', [None])


def uniq(cx):
    rows = table(cx)
    seen = {}
    for o in rows:
        if not o.name:
            raise Violation('a pattern has an empty name', o.where)
        if o.name in seen:
            raise Violation(f'two patterns are called {o.name!r}: the second can never be selected', o.where)
        seen[o.name] = o
    if not rows:
        raise Violation('the pattern table is empty', RXM + 'PATTERNS')
    return f'{len(rows)} names'


def tree(o):
    try:
        return RX.parse(o.text)
    except RX.Unknown as ex:
        raise Undecided(f'{o.name}: {ex} is not modelled')
    except RX.Bad as ex:
        raise Violation(f'{o.name}: {o.text!r} is not a valid expression: {ex}', o.where)


def valid(cx):
    for o in table(cx):
        tree(o)
    return f'{len(table(cx))} expressions parsed'


def empty(cx):
    for o in table(cx):
        t = tree(o)
        if RX.whole(t, ''):
            raise Violation(f'{o.name}: {o.text!r} matches the empty text', o.where)
        if RX.nullable(t):
            raise Violation(f'{o.name}: {o.text!r} can match nothing at all', o.where)
    return f'{len(table(cx))} expressions'


def examples(cx):
    n = 0
    for o in table(cx):
        t = tree(o)
        for s in o.yes:
            n += 1
            if not RX.whole(t, s):
                raise Violation(f'{o.name}: {o.text!r} does not accept its example {s!r}', o.where)
        for s in o.no:
            n += 1
            if RX.whole(t, s):
                raise Violation(f'{o.name}: {o.text!r} accepts its counter-example {s!r}', o.where)
    return f'{n} examples and counter-examples of {len(table(cx))} patterns'


def documented(cx):
    p = os.path.join(dump.REPO, 'README.md')
    if not os.path.exists(p):
        raise Undecided('README.md not found')
    doc = open(p, encoding='utf-8').read()
    names = {o.name for o in table(cx)}
    used = set()
    for m in pyre.finditer(r'for pattern in ([a-z0-9 -]+); *do', doc):
        used |= set(m.group(1).split())
    for m in pyre.finditer(r'(?:--pattern|-p) ([a-z][a-z0-9]*(?:-[a-z0-9]+)+)', doc):
        used.add(m.group(1))
    for w in sorted(used):
        if w not in names:
            raise Violation(f'the documentation uses the pattern {w!r}, which the table lacks: it would be taken for an expression', 'PATTERNS (src/regex.rs) and README.md')
    return f'{len(used)} names'


def built(cx, name, want):
    b = cx.body(RXM + name, crate=EXE)
    r = cx.run(b, None)
    cx.clear(r)
    a = r.p(0)
    for n in (1, 2, 3):
        hs = [mk('sym', 'part', i) for i in range(n)]
        l = cat(*[one(h) for h in hs])
        t = subst_all(subst_all(r.ret, {mk('items', a): l}), {a: l})
        if t.op != 'regex':
            und_(t)
            raise Violation(f'{name} returns {show(t, 4)[:200]}', r.where)
        if name == 'build_allow_regex':
            t = LP.mapop(t, 'sorted', lambda x: x.args[0])
        try:
            s = text(t)
        except Reordered:
            raise Violation(f'{name} changes the order of {n} parts', r.where)
        shown = ''.join(c if isinstance(c, str) else f'<{hs.index(c) + 1 if c in hs else "?"}>' for c in s)
        for c in s:
            if not isinstance(c, str) and c not in hs:
                raise Undecided(f'{name}: what is combined is not recognised: {show(c, 4)[:200]}')
        try:
            bs = RX.branches(RX.parse(s))
        except RX.Unknown as ex:
            raise Undecided(f'{name}: {ex} is not modelled')
        except RX.Bad as ex:
            raise Violation(f'{name} makes {shown} of {n} parts: {ex}', r.where)
        exp = [[w if w else ('hole', h) for w in want] for h in hs]
        if name == 'build_allow_regex':      # the order of the parts does not matter for whole matches
            bs, exp = sorted(bs, key=str), sorted(exp, key=str)
        if bs != exp:
            raise Violation(f'{name} makes {shown} of {n} parts', r.where)
    return 'instances with one, two and three parts'


def und_(t):
    w = murky(t)
    if w:
        raise Undecided(w)
