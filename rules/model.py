"""C01 C02 C03 C04 C08: segmentation, and the model's indexes."""
from lib import *
import loops as LP

ENC = 'Model::encode'


class Col:
    """one column of the segmentation table: a table variable and a field path"""

    def __init__(self, loc, path, val, li, lo):
        self.loc, self.path, self.val, self.li, self.lo = loc, path, val, li, lo

    def read(self, table, k):
        x = at(table, k)
        for v, i in self.path:
            x = fld(x, v, i)
        return x


def expand(val, path=()):
    """columns of a written record"""
    if val.op == 'agg' and val.args[0] not in ('clos',) and val.args[2] and not is_option(val):
        for i, x in enumerate(val.args[2]):
            yield from expand(x, path + ((val.args[1], i),))
    else:
        yield path, val
        if is_option(val) and val is not NONE and val.args[2] and not is_option(val.args[2][0]):
            yield from expand(val.args[2][0], path + ((1, 0),))


class Reach:
    """how an entry says that it is reached, and from where: an option, a flag, or a start other than `none`"""

    def __init__(self, col, start=None, kind='option', none=None):
        self.col, self.startc, self.kind, self.none = col, start, kind, none
        self.loc, self.li, self.lo = col.loc, col.li, col.lo
        self.sloc = (start or col).loc

    def reached(self, table, k):
        x = self.col.read(table, k)
        if self.kind == 'flag':
            return x
        if self.kind == 'mark':
            return NOT(eq(x, self.none))
        return is_some(x)

    def start(self, table, k):
        return self.startc.read(table, k) if self.startc else fld(self.col.read(table, k), 1, 0)


def is_option(v):
    return v.op == 'agg' and 'Option' in str(v.args[0]) or v is NONE or v.op == 'agg' and v.args[:2] == some(K0).args[:2]


def hits(m, F, x):
    return mk('prefixes', fld(m, 0, F.trie), x)


def offset(x, inp):
    """x is a stretch of inp: its position and end"""
    if x is inp:
        return K0, seqlen(inp)
    if x.op == 'slice' and x.args[0] is inp:
        return x.args[1], x.args[2]
    return None


def shape(cx):
    """roles in Model::encode"""
    c = cx.cache.get('encshape')
    if isinstance(c, dict):
        return c
    F = fieldsof(cx)
    r = cx.model('encode')
    cx.clear(r)
    m, inp, drop = r.p(0), r.p(1), r.p(2)
    tr = fld(m, 0, F.trie)
    LIs = [l for l in r.loops.values() if l.n is not None and l.n.op == 'len' and l.n.args[0].op == 'prefixes']
    if len(LIs) != 1:
        # a search that is not over the model's own index
        raise Undecided(f'{len(LIs)} loops over prefix-search hits')
    LI = LIs[0]
    P = LI.n.args[0]
    cx.must(P.args[0] is tr or murky(P.args[0]), 'hits come from the model\'s own prefix index', r)
    pos = offset(P.args[1], inp)
    if pos is None:
        raise Undecided(f'searched text not recognised: {show(P.args[1], 8)[:200]}')
    pos, hi = pos
    LO = r.loops.get(LI.stack[-1][0]) if LI.stack else None
    if LO is None or LO.stack:
        raise Undecided('the hit loop is not directly inside the position loop')
    el = at(P, LI.j)
    id_, ln = fld(el, 0, 0), fld(el, 0, 1)
    TT.declare_nonneg(id_)
    TT.declare_nonneg(ln)
    # table variables
    tabs = {loc: d for loc, d in LI.vars.items() if find(d['next'], lambda x: x.op == 'vset')}
    if not tabs:
        raise Undecided('no table is written by the hit loop')
    alias = {}
    for loc, d in tabs.items():
        lo = LO.vars.get(loc)
        if lo is None or d['init'] is not lo['phi']:
            raise Undecided('the table entering the hit loop is not the position loop\'s')
        # a hit never writes at its own position: hits have at least one byte
        alias[at(lo['phi'], pos)] = at(d['phi'], pos)
    cols, idx, W = [], None, None
    for loc, d in tabs.items():
        w, ix, vals = FALSE, set(), []
        for g, l in leaves(restrict(d['next'], LI.endpc), LI.endpc):
            if l is d['phi']:
                continue
            if l.op != 'vset' or l.args[0] is not d['phi']:
                raise Undecided(f'table update not recognised: {show(l, 6)[:200]}')
            g = AND(g, LI.endpc)
            w = OR(w, g)
            ix.add(l.args[1])
            vals.append((g, l.args[2]))
        if len(ix) != 1:
            raise Undecided('several table positions are written per hit')
        v = vals[-1][1]
        for g, x in vals[:-1]:
            v = ite(g, x, v)
        i = ix.pop()
        if idx is None:
            idx, W = i, w
        elif idx is not i or W is not w:
            raise Undecided('columns of the table are written differently')
        for path, x in expand(v):
            cols.append(Col(loc, path, x, d, LO.vars[loc]))
    go = AND(lt(LO.j, LO.n), lt(LI.j, LI.n)) if LO.n is not None else TRUE

    def canon(t):
        for a, b in alias.items():
            t = LP.replace(t, a, b)
        for a, b in lens.items():
            t = LP.replace(t, a, b)
        return LP.replace(t, vlen, ln)
    # every write of a table keeps its length
    lens = {}
    for loc, d in tabs.items():
        lo = LO.vars[loc]
        for t in (d['phi'], lo['phi'], d['final'], lo['final']):
            if t is not None:
                lens[seqlen(t)] = seqlen(lo['init'])
    # the length stored with a hit is the length of its token (C08)
    vlen = seqlen(F.val(at(F.v(m), id_)))
    q = dict(F=F, r=r, m=m, inp=inp, drop=drop, LO=LO, LI=LI, P=P, pos=pos, hi=hi, id=id_, len=ln, cols=cols, idx=idx, W=canon(W), go=go, canon=canon)
    # what C08 says of a hit: its token is in the vocabulary, is not empty and ends inside the text
    q['facts'] = AND(le(add(pos, ln), seqlen(inp)), lt(id_, seqlen(F.v(m))), lt(K0, ln))
    q['idcol'] = [c for c in cols if veq(c.val, id_)]
    q['startcol'] = [c for c in cols if veq(c.val, some(pos))]
    q['scorecol'] = [c for c in cols if c not in q['idcol'] and c not in q['startcol'] and not is_option(c.val)]
    cx.cache['encshape'] = q
    return q


def column(cx, q, name, what):
    cs = q[name]
    if len(cs) == 1:
        return cs[0]
    raise Undecided(f'{len(cs)} columns hold {what}')


def startcol(cx, q):
    if len(q['startcol']) == 1:
        return Reach(q['startcol'][0])
    r = q['r']
    opt = [c for c in q['cols'] if is_option(c.val)]
    flags = [c for c in q['cols'] if c.val is TRUE]
    nums = [c for c in q['cols'] if c not in opt and c not in flags and c not in q['idcol'] and not isfloat(cx, q, c)]
    st = [c for c in nums if veq(c.val, q['pos'])]
    if len(opt) == 1 and not flags:
        mark = dict(col=opt[0])
    elif len(flags) == 1 and not opt:
        mark = dict(col=flags[0], kind='flag')
    elif not opt and not flags and len(st) == 1:
        # a start no position can be
        k = sym('k')
        TT.declare_nonneg(k)
        none = restrict(st[0].read(st[0].lo['init'], add(k, K1)), lt(K0, add(k, K1)))
        if none.op != 'k' or none.args[0] < 1 << 62:
            raise Undecided(f'unreached positions are not marked in a recognised way: {show(none, 6)[:120]}')
        mark = dict(col=st[0], kind='mark', none=none)
    else:
        raise Undecided(f'{len(opt)} columns of optional type, {len(flags)} flags')
    if len(st) == 1:
        return Reach(start=st[0], **mark)
    if len(nums) == 1 or not nums and opt:
        v = (nums or opt)[0].val
        why = murky(subst(v, {q['LO'].j: sym('pos'), q['LI'].j: sym('hit')}))
        if why:
            raise Undecided(why)
        raise Violation(f"a segment's start must be the position it was found at ({show(q['pos'])}); recorded: {show(v, 8)[:200]}", r.where)
    raise Undecided(f'{len(st)} of {len(nums)} columns hold the start')


def idcol(cx, q):
    if len(q['idcol']) == 1:
        return q['idcol'][0]
    if not q['idcol']:
        ints = [c for c in q['cols'] if c not in q['startcol'] and not veq(c.val, q['pos']) and not isfloat(cx, q, c)]
        if len(ints) == 1:
            c = ints[0]
            v = subst(q['canon'](c.val), {q['LO'].j: sym('pos'), q['LI'].j: sym('hit')})
            if not murky(v):
                raise Violation(f"the recorded id must be the hit's id; recorded: {show(v, 8)[:200]}", q['r'].where)
    raise Undecided(f"{len(q['idcol'])} columns hold the id")


def isfloat(cx, q, c):
    return bool(find(c.val, lambda x: x.op in ('fl', 'fsum', 'fprod', 'flt'))) or bool(find(c.val, lambda x: x.op == 'fld' and x.args[2] == q['F'].score and x.args[0].op == 'at'))


def spec_score(q, c):
    F = q['F']
    return fadd(c.read(c.li['phi'], q['pos']), F.sc(at(F.v(q['m']), q['id'])))


def scorecol(cx, q):
    fl = [c for c in q['scorecol'] if isfloat(cx, q, c)]
    if len(fl) != 1:
        raise Undecided(f'{len(fl)} score columns')
    return fl[0]


def abstract(q, t):
    """loop-local names made plain, so that only real unknowns are murky"""
    m = {q['LO'].j: sym('pos'), q['LI'].j: sym('hit')}
    for c in q['cols']:
        for k, s in ((c.li['phi'], 'table'), (c.lo['phi'], 'table')):
            if k.op in ('sym',):
                m[k] = sym(s, str(c.loc))
    return subst(t, m)


def cmp(q, got, exp, what, r, pc=TRUE):
    got, exp = q['canon'](got), q['canon'](exp)
    if veq(got, exp, pc) or veq(got, exp, AND(pc, q['facts'])):
        return
    a, b = abstract(q, got), abstract(q, exp)
    why = murky(a, b)
    if why:
        raise Undecided(f'{what}: {why}; got {show(a, 10)[:300]}')
    raise Violation(f'{what}: got {show(restrict(a, abstract(q, pc)), 14)[:700]}; required {show(b, 14)[:700]}', r.where)


def backtrack(cx, q):
    """the loop that follows starts from the end of the text"""
    c = cx.cache.get('encback')
    if isinstance(c, dict):
        return c
    r, inp = q['r'], q['inp']
    sc = startcol(cx, q)
    fin = {c.loc: c.lo['final'] for c in q['cols']}
    ls = [l for l in r.top(None) if l is not q['LO'] and any(find(d['next'], lambda x: x in fin.values()) for d in l.vars.values())]
    if len(ls) != 1:
        raise Undecided(f'{len(ls)} backtracking loops')
    B = ls[0]
    ids = [(l, d) for l, d in B.vars.items() if d['next'].op == 'cat' and any(p is d['phi'] for p in d['next'].args)]
    ps = [(l, d) for l, d in B.vars.items() if not any(l == x[0] for x in ids)]
    if len(ids) != 1 or len(ps) != 1:
        raise Undecided(f'backtracking state: {len(ids)} lists, {len(ps)} positions')
    p, o = ps[0][1], ids[0][1]
    TT.declare_nonneg(p['phi'])
    b = dict(B=B, p=p, o=o, sc=sc, fin=fin)
    cx.cache['encback'] = b
    return b


def c01(cx):
    F = fieldsof(cx)

    def write():
        q = shape(cx)
        r = q['r']
        cmp(q, q['idx'], add(q['pos'], q['len']), 'table position written for a hit of length len at pos', r)
        startcol(cx, q)
        idcol(cx, q)
        return f"a hit (id, len) at pos is recorded at pos+len with its id and Some(pos); {len(q['cols'])} columns"
    cx.ob('record', 'Model::encode records a hit of length len found at pos under position pos+len, with that hit\'s id and start pos', write)

    def pairing():
        q = shape(cx)
        cs = [idcol(cx, q), startcol(cx, q)]
        n = len({c.loc for c in cs})
        return f'id and start are written together, under one condition ({n} table variable(s))'
    cx.ob('paired', 'id and start of a table entry always come from the same hit', pairing)

    def searched():
        q = shape(cx)
        return f"searched bytes: a stretch of the input from {show(abstract(q, q['pos']))}"
    cx.ob('searched', 'the prefix search runs over the input from the current position on', searched)

    def initial():
        q = shape(cx)
        sc = startcol(cx, q)
        k = sym('k')
        TT.declare_nonneg(k)
        init = sc.lo['init']
        cx.holds(NOT(sc.reached(init, add(k, K1))), 'no entry is reached before the first hit', q['r'], (init,))
        return 'initial entries past 0 have no start'
    cx.ob('initial', 'before the loop no position past 0 has an entry', initial)

    def untouched():
        q = shape(cx)
        n = 0
        for c in q['cols']:
            nx = c.lo['next']
            for g, l in leaves(nx):
                if l is c.lo['phi'] or l is c.li['final']:
                    n += 1
                    continue
                raise Undecided(f'the table is also changed outside the hit loop: {show(abstract(q, l), 6)[:200]}')
        return 'the hit loop is the only writer'
    cx.ob('single-writer', 'the table is changed by recorded hits only', untouched)

    def back():
        q = shape(cx)
        b = backtrack(cx, q)
        r, p, o, B = q['r'], b['p'], b['o'], b['B']
        ic, sc = idcol(cx, q), b['sc']
        cx.same(p['init'], seqlen(q['inp']), 'backtracking starts at the end of the text', r)
        go = AND(lt(K0, p['phi']), sc.reached(b['fin'][sc.loc], p['phi']))
        x = sc.start(b['fin'][sc.sloc], p['phi'])
        y = ic.read(b['fin'][ic.loc], p['phi'])
        m = {p['phi']: sym('pos'), o['phi']: sym('ids')}
        fm = {f: sym('final', str(l)) for l, f in b['fin'].items()}

        def plainly(t):
            for f, s in fm.items():
                t = LP.replace(t, f, s)
            return subst(t, m)

        def eqv(got, exp, what, pc=TRUE):
            if veq(got, exp, pc):
                return
            # (starts only decrease from the end of the text, and tables keep their lengths)
            got, exp, pc = q['canon'](got), q['canon'](exp), AND(q['canon'](pc), le(p['phi'], seqlen(q['inp'])))
            if veq(got, exp, pc):
                return
            a, e = plainly(got), plainly(exp)
            why = murky(a, e)
            if why:
                raise Undecided(f'{what}: {why}; got {show(a, 8)[:300]}')
            raise Violation(f'{what}: got {show(a, 10)[:400]}; required {show(e, 10)[:400]}', r.where)
        eqv(B.endpc, go, 'backtracking continues exactly from reached positions past 0', B.pc)
        eqv(p['next'], x, 'backtracking moves to the start of the entry', go)
        app, pre = cat(o['phi'], one(y)), cat(one(y), o['phi'])
        ret = restrict(r.ret, AND(lt(p['phi'], K1), B.pc))
        if veq(o['next'], pre, go):
            eqv(ret, ok(o['phi']), 'result', lt(p['phi'], K1))
        else:
            eqv(o['next'], app, 'backtracking emits the id of the entry it leaves', go)
            eqv(ret, ok(rev(o['phi'])), 'the emitted ids, put back in text order, are the result', lt(p['phi'], K1))
        eqv(o['init'], EMPTY, 'the id list starts empty')
        late = AND(lt(K0, p['phi']), B.pc)
        eqv(NOT(is_ok(restrict(r.ret, late))), TRUE, 'success is reported only at position 0', late)
        # results given without backtracking
        if B.pc is not TRUE:
            w = restrict(r.ret, NOT(B.pc))
            g = AND(NOT(B.pc), is_ok(w))
            if g is not FALSE:
                eqv(lt(seqlen(q['inp']), K1), TRUE, 'without backtracking, success is reported for the empty text only', g)
                eqv(restrict(fld(w, 0, 0), g), EMPTY, 'ids of the empty text', g)
        return 'from |input| to 0 along the recorded starts, one id per step, reversed'

    def given_():
        r = cx.model('encode')
        cx.clear(r)
        inp = r.p(1)
        part = lambda x: x is inp or x.op in ('slice', 'items') and part(x.args[0])
        seen = 0
        for l in r.loops.values():
            if l.n is None or l.n.op != 'len' or l.n.args[0].op != 'prefixes':
                continue
            ls = leaves(l.n.args[0].args[1], l.pc)
            for g, x in ls:
                seen += 1
                y = x
                while y.op in ('slice', 'items'):
                    y = y.args[0]
                if y.op.startswith('s_trim') and find(y, lambda z: z is inp):
                    raise Violation(f'the text segmented is not the text given but {show(y, 5)[:200]}', r.where)
                if y.op in ('replace', 'replacen', 'lower', 'upper', 'nfc', 'nfkc', 'nfd', 'nfkd') and find(y, lambda z: z is inp):
                    raise Violation(f'the text segmented is not the text given but {show(y, 5)[:200]}', r.where)
            tests = {z for g, x in ls for z in subterms(g) if z.op in ('startswith', 'endswith', 'charclass') and find(z, lambda w: w is inp)}
            offs = {x.args[1] if x.op == 'slice' else K0 for g, x in ls if part(x)}
            ends = {x.args[2] if x.op == 'slice' else seqlen(inp) for g, x in ls if part(x)}
            if tests and (len(offs) > 1 or len(ends) > 1):
                raise Violation(f'a part of the text is left out when {show(list(tests)[0], 6)[:200]}', r.where)
        if not seen:
            raise Undecided('no prefix search found')
        return f'{seen} searches over the text given'
    cx.ob('given', 'what is segmented is the text given, all of it', given_)
    cx.ob('backtrack', 'ids are read along the recorded starts from the end of the text to 0 and returned in text order', back)
    cx.ob('prefix-index', 'see C08: prefix search yields the id and length stored for exactly the consumed bytes', lambda: trie_next(cx))
    cx.ob('prefix-index-values', 'the length stored with a token is its byte length and its id its place in the vocabulary', lambda: index_values(cx, 'from'))
    cx.ob('prefix-index-values-add', 'the same for added tokens', lambda: index_values(cx, 'add_tokens'))


def c02(cx):
    F = fieldsof(cx)

    def unreached(c, table, k):
        return NOT(c.reached(table, k))

    def order():
        q = shape(cx)
        LO, r = q['LO'], q['r']
        if LO.n is None:
            raise Undecided('position loop not counted')
        # the last position (the end) has no hits
        ascending(q['pos'], LO, r)
        ok_ = veq(LO.n, seqlen(q['inp'])) or veq(LO.n, add(seqlen(q['inp']), K1))
        if not ok_:
            cx.same(LO.n, seqlen(q['inp']), 'number of positions visited', r)
        nm = {LO.j: sym('pos'), q['LI'].j: sym('hit')}
        for c in q['cols']:
            for k in (c.li['phi'], c.lo['phi']):
                if k.op == 'sym':
                    nm[k] = sym('table')
        for l in (LO, q['LI']):
            early(l, nodrop(q, q['canon'](l.G), pos=False) if l.exits else FALSE, q['pos'], q['len'], q['inp'], nm, r)
        return 'positions 0, 1, … |input|-1 in order'
    def whole():
        q = shape(cx)
        limited(cx, q['hi'], q['pos'], seqlen(q['inp']), q['r'].p(0))
        cmp(q, q['hi'], seqlen(q['inp']), 'end of the bytes searched at a position', q['r'])
        return 'to the end of the text'
    cx.ob('whole-rest', 'the prefix search at a position runs over the whole rest of the text', whole)
    cx.ob('order', 'every position of the text is expanded, in ascending order, and every hit considered', order)

    def empty_only(q, pc):
        """a text is not searched only when it is empty"""
        c = OR(pc, lt(seqlen(q['inp']), K1))
        if not proves(c):
            cmp(q, c, TRUE, 'texts that are searched', q['r'])

    def skip():
        q = shape(cx)
        sc = startcol(cx, q)
        LO = q['LO']
        go = AND(LO.pc, lt(LO.j, LO.n))
        empty_only(q, LO.pc)
        g = restrict(q['canon'](q['LI'].pc), go)
        exp = NOT(q['canon'](unreached(sc, sc.lo['phi'], q['pos'])))
        cmp(q, g, exp, 'positions expanded', q['r'], go)
        return 'a position is expanded iff it has an entry'
    cx.ob('skip', 'a position is expanded iff it is reached', skip)

    def score():
        q = shape(cx)
        c = scorecol(cx, q)
        cmp(q, c.val, spec_score(q, c), 'score recorded for a hit', q['r'], q['W'])
        return 'score(pos) + score of the token'
    cx.ob('score', "a recorded score is the score at the hit's start plus the token's own score", score)

    def relax():
        q = shape(cx)
        sc, c = startcol(cx, q), scorecol(cx, q)
        i = add(q['pos'], q['len'])
        new, old = spec_score(q, c), c.read(c.li['phi'], i)
        u = unreached(sc, sc.li['phi'], i)
        W = nodrop(q, q['W'], pos=False)
        go = q['go']
        a, b = OR(u, flt(old, new)), OR(u, fle(old, new))
        g2 = AND(q['LO'].pc, go, q['facts'], q['canon'](NOT(unreached(sc, sc.lo['phi'], q['pos']))))
        W = restrict(W, g2)
        if veq(W, q['canon'](a), g2) or veq(W, q['canon'](b), g2):
            return 'replaced iff unreached or strictly better'
        cmp(q, W, a, 'condition under which an entry is replaced', q['r'], g2)
        return ''
    cx.ob('relax', 'without dropout an entry is replaced iff it has none yet or the new path scores more', relax)

    def start():
        q = shape(cx)
        sc, c = startcol(cx, q), scorecol(cx, q)
        r = q['r']
        cx.holds(sc.reached(sc.lo['init'], K0), 'position 0 is reached at the start', r, (sc.lo['init'],))
        cx.same(c.read(c.lo['init'], K0), KF(0.0), 'score of the empty segmentation', r)
        cx.holds(le(add(seqlen(q['inp']), K1), seqlen(sc.lo['init'])), 'the table has an entry for every position', r)
        return 'reached, score 0'
    cx.ob('start', 'position 0 starts reached, with score 0', start)

    def nopath():
        q = shape(cx)
        b = backtrack(cx, q)
        r, p, sc = q['r'], b['p'], b['sc']
        E = 'tokengeex::Error'
        v = cx.vidx(E, 'NoPath')
        for k, g, x, val in b['B'].exits:
            if k[0] == 'ret':
                u = AND(lt(K0, p['phi']), unreached(sc, b['fin'][sc.loc], p['phi']))
                if not veq(q['canon'](g), q['canon'](u), le(p['phi'], seqlen(q['inp']))):
                    w = subst(LP.replace(g, b['fin'][sc.loc], sym('final')), {p['phi']: sym('pos'), b['o']['phi']: sym('ids')})
                    if murky(w):
                        raise Undecided(murky(w))
                    raise Violation(f'an error is returned when {show(w, 10)[:400]}, not exactly when the position is unreached', r.where)
                e = restrict(fld(val, 1, 0), g)
                if e.op == 'agg':
                    cx.must(e.args[0] == E and e.args[1] == v, f'error must be NoPath: {show(e, 5)[:200]}', r)
                else:
                    raise Undecided('error value not recognised')
        B = b['B']
        if B.pc is not TRUE:
            w = restrict(r.ret, NOT(B.pc))
            n = seqlen(q['inp'])
            u = AND(lt(K0, n), unreached(sc, b['fin'][sc.loc], n))
            g = AND(NOT(B.pc), NOT(is_ok(w)))
            # position 0 starts reached
            z = AND(lt(n, K1), unreached(sc, b['fin'][sc.loc], n))
            if g is not FALSE and not proves(OR(NOT(g), u, z)):
                f = LP.replace(g, b['fin'][sc.loc], sym('final'))
                if murky(f):
                    raise Undecided(murky(f))
                raise Violation(f'an error is returned when {show(f, 10)[:400]}, not exactly when the end is unreached', r.where)
            e = restrict(fld(w, 1, 0), g)
            if g is not FALSE:
                for g2, x in leaves(e, g):
                    if x.op != 'agg':
                        raise Undecided('error value not recognised')
                    cx.must(x.args[0] == E and x.args[1] == v, f'error must be NoPath: {show(x, 5)[:200]}', r)
        return 'NoPath iff the end cannot be reached'
    cx.ob('no-path', 'the no-path error is returned iff the end of the text is unreached', nopath)
    cx.ob('total', 'no index of Model::encode is out of bounds', lambda: enc_total(cx))
    cx.ob('prefix-index', 'every vocabulary token that starts the rest of the text is a hit', lambda: trie_next(cx))
    cx.ob('trie-insert', 'every token is stored in the prefix index', lambda: trie_push(cx))


def _und(msg):
    raise Undecided(msg)


def nodrop(q, g, pos):
    """g with dropout assumed 0 (pos=False) or positive (pos=True)"""
    a = flt(KF(0.0), q['drop'])
    g = restrict(g, a if pos else NOT(a))
    if not pos and find(g, lambda x: x is q['drop']):
        # dropout is exactly 0
        g = subst(g, {q['drop']: KF(0.0)})
    return g


def enc_total(cx):
    q = shape(cx)
    # hits: ids are vocabulary positions and a hit ends inside the text (C08)
    r = q['r']
    n = 0
    sc = startcol(cx, q)
    want = seqlen(sc.lo['init'])
    for e in r.events:
        if e['kind'] in ('index', 'slice', 'sub', 'panic', 'mapindex'):
            n += 1
    # table length is preserved by every write, so bounds are judged on the initial length
    bad = []
    for e in r.events:
        if e['kind'] == 'index':
            c = OR(NOT(e['pc']), lt(e['i'], seqlen(e['v'])))
            for cc in q['cols']:
                for t in (cc.li['phi'], cc.lo['phi'], cc.lo['final']):
                    if t is not None:
                        c = LP.replace(c, seqlen(t), want)
            fin = add(q['pos'], q['len'])
            extra = AND(le(fin, seqlen(q['inp'])), lt(q['id'], seqlen(q['F'].v(q['m']))))
            c = OR(NOT(extra), c)
            if not proves(c):
                bad.append((e, c))
        elif e['kind'] == 'slice':
            c = OR(NOT(e['pc']), AND(le(e['lo'], e['hi']), le(e['hi'], seqlen(e['v']))))
            if not proves(c):
                bad.append((e, c))
    bt = backtrack(cx, q)
    out = []
    for e, c in bad:
        if e['i'] is bt['p']['phi'] if e['kind'] == 'index' else False:
            continue   # starts only decrease from |input|
        w = abstract(q, c)
        why = murky(w)
        if why:
            raise Undecided(f'{e["where"]}: {why}')
        raise Violation(f'possible panic in {e["where"][0]}: {show(NOT(w), 10)[:400]}', f'{e["where"][0]} ({e["where"][1]}:{e["where"][2]})')
    return f'{n} accesses in bounds given the prefix-index invariant'


# ------------------------------------------------------------------ C03
INTERIOR = ('Cell<', 'RefCell', 'UnsafeCell', 'Mutex', 'RwLock', 'Atomic', 'OnceCell', 'OnceLock', 'LazyLock', 'LazyCell', '*mut', '*const', 'DashMap', 'ThreadLocal', 'LocalKey')


def typewalk(cx, path):
    """field types reachable from a type of the library"""
    seen, todo, out = set(), [path], []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        a = cx.prog.adt_by_path.get(p)
        if a is None:
            continue
        types = a['crate'].types
        for v in a['variants']:
            for f in v['fields']:
                t = types[f['ty']]
                out.append((p, f['name'], t['s']))
                for q_ in cx.prog.adt_by_path:
                    last = q_.split('::')[-1]
                    if q_.startswith('tokengeex') and (q_ in t['s'] or last + '<' in t['s'] or t['s'].endswith(last) or last + '>' in t['s']):
                        todo.append(q_)
    return out, seen


SHARED = {
    'tokengeex::tokenizer::Tokenizer': ['encode', 'encode_ordinary', 'encode_batch', 'encode_ordinary_batch', 'decode', 'decode_batch', 'token_to_id', 'id_to_token',
                                        'base_token_to_id', 'id_to_base_token', 'special_token_to_id', 'id_to_special_token', 'is_special', 'is_base',
                                        'vocab_size', 'base_vocab_size', 'special_vocab_size', 'special_tokens', 'model', 'processors'],
    'tokengeex::model::Model': ['encode', 'decode', 'token_to_id', 'id_to_token', 'vocab_size', 'vocab', 'common_prefix_search'],
}


def c03(cx):
    def types():
        n = 0
        fs, seen = typewalk(cx, 'tokengeex::tokenizer::Tokenizer')
        for p, f, s in fs:
            n += 1
            for w in INTERIOR:
                if w in s:
                    raise Violation(f'{p}.{f}: {s} can be changed through a shared reference', p)
        cx.must('tokengeex::model::Model' in seen, 'Model is part of Tokenizer', cx.tok('vocab_size'))
        return f'{n} fields of {len(seen)} types, none with interior mutability'
    cx.ob('types', 'no field of Tokenizer, Model, Trie or a processor can change through a shared reference', types)

    def receivers(ty, name):
        b = cx.method(ty, name, crate=LIB, optional=True)
        if b is None:
            return None
        p0 = b['crate'].types[b['params'][0]['ty']]
        if p0['k'] == 'ref' and p0['mut']:
            raise Violation(f'{name} takes the tokenizer mutably', f"{ty}::{name} ({b['file']}:{b['line']})")
        return b

    for ty, names in SHARED.items():
        for name in names:
            def go(ty=ty, name=name):
                b = receivers(ty, name)
                if b is None:
                    raise Undecided('not found')
                r = cx.run(b, 'TRIE' if ty.endswith('Model') else 'TOK')
                n = 0
                for e in r.events:
                    k = e['kind']
                    if k in ('lock', 'atomic', 'fs', 'print', 'static', 'tls', 'env', 'time'):
                        raise Violation(f'{name} touches shared state ({k}) in {e["where"][0]}', f'{e["where"][0]} ({e["where"][1]}:{e["where"][2]})')
                    if k == 'random':
                        n += 1
                        d = r.p(2) if len(b['params']) > 2 else None
                        if d is None:
                            raise Violation(f'{name} is random', r.where)
                        c = OR(NOT(e['pc']), flt(KF(0.0), d))
                        if c is not TRUE:
                            m = {}
                            for l in r.loops.values():
                                m[l.j] = sym('i', l.lid)
                                for v in l.vars.values():
                                    if v['phi'].op == 'sym':
                                        m[v['phi']] = sym('v', str(v['phi']))
                            why = murky(subst(c, m))
                            if why:
                                raise Undecided(why)
                            raise Violation(f'randomness is consulted also when {show(NOT(c), 10)[:400]}', f'{e["where"][0]} ({e["where"][1]}:{e["where"][2]})')
                hm = [x for l in ([r.ret] + [d['next'] for l in r.loops.values() for d in l.vars.values()]) for x in find(l, lambda x: x.op in ('mseq', 'mkeys', 'mvals', 'mapseq', 'hashorder'))]
                if hm:
                    raise Violation(f'the result depends on the iteration order of a hash map', r.where)
                cx.clear(r)
                return f'{len(r.events)} operations; {n} random draws, each only for a positive dropout'
            cx.ob(f"{ty.split('::')[-1]}.{name}", f'{name} takes a shared tokenizer, touches no shared state, and draws randomness only for a positive dropout', go)

    def processors():
        n = 0
        for ty in ('CrlfProcessor', 'UnicodeProcessor', 'ProcessorWrapper'):
            for name in ('preprocess', 'postprocess'):
                b = cx.method(f'tokengeex::processor::{ty}', name, 'tokengeex::processor::Processor', crate=LIB)
                r = cx.run(b, None)
                bad = [e for e in r.events if e['kind'] in ('lock', 'atomic', 'fs', 'random', 'static', 'print')]
                cx.must(not bad, f'{ty}::{name} touches shared state', r)
                cx.clear(r)
                n += 1
        return f'{n} processor steps are functions of their argument'
    cx.ob('processors', 'processor steps are functions of their argument', processors)


# ------------------------------------------------------------------ C04
def c04(cx):
    def judge(W, ln, drop, rands, r, where, names):
        """W: acceptance condition; without the draw it must be base; for len<2 or dropout<=0 no draw matters"""
        pos_ = flt(KF(0.0), drop)
        m = names

        def murk(t):
            return murky(subst(t, m))
        R = [x for x in find(W, lambda x: x.op == 'rand')]
        base0 = restrict(W, NOT(pos_))
        if find(base0, lambda x: x.op == 'rand'):
            raise Violation('a dropout of 0 can remove a token', where)
        if find(base0, lambda x: x is drop):
            base0 = subst(base0, {drop: KF(0.0)})
        # hits have at least one byte (C08)
        W = restrict(W, le(K1, ln))
        base0 = restrict(base0, le(K1, ln))
        short = lt(ln, K(2))
        ws = restrict(W, AND(short, pos_))
        if find(ws, lambda x: x.op == 'rand' or x is drop):
            raise Violation('dropout can remove a token of one byte', where)
        if not veq(ws, base0, AND(short, pos_)):
            why = murk(ws) or murk(base0)
            if why:
                raise Undecided(why)
            raise Violation(f'dropout changes what happens to a token of one byte: {show(subst(ws, m), 10)[:300]} against {show(subst(base0, m), 10)[:300]}', where)
        long_ = restrict(W, AND(NOT(short), pos_))
        base = base0
        if not R:
            raise Violation('dropout removes no token', where)
        if len(R) != 1:
            raise Undecided('several draws')
        d = R[0]
        for keep in (flt(drop, d), NOT(flt(d, drop))):
            if veq(long_, AND(base, keep), AND(NOT(short), pos_)):
                break
        else:
            why = murk(long_)
            if why:
                raise Undecided(why)
            raise Violation(f'a longer token must be kept iff the draw exceeds the dropout; kept when {show(subst(long_, m), 10)[:400]}', where)
        if 'random' not in str(d.args[0]):
            raise Undecided('kind of draw not recognised')
        return f'kept iff dropout <= 0, or one byte, or the draw in [0,1) is above the dropout'

    def enc():
        q = shape(cx)
        r = q['r']
        m = {q['LO'].j: sym('pos'), q['LI'].j: sym('hit')}
        for c in q['cols']:
            for k in (c.li['phi'], c.lo['phi']):
                if k.op == 'sym':
                    m[k] = sym('table')
        return judge(q['W'], q['len'], q['drop'], None, r, r.where, m)
    cx.ob('encode', 'Model::encode: dropout removes only tokens of two or more bytes; 0 removes none, 1 all of them', enc)

    def lattice():
        r, L, e, P = populate(cx)
        el = at(P, L.j)
        ln = fld(el, 0, 1)
        m = {l.j: sym('i', l.lid) for l in r.loops.values()}
        for l in r.loops.values():
            for v in l.vars.values():
                if v['phi'].op == 'sym':
                    m[v['phi']] = sym('v', str(v['phi']))
        return judge(e['pc'], ln, r.p(2), None, r, r.where, m)
    cx.ob('populate', 'Model::populate_nodes: dropout removes only tokens of two or more bytes; 0 removes none, 1 all of them', lattice)


def insert_anchor(I, a, st, fr, e):
    vals = [I.deep(st, x) for x in a[1:]]
    cur = I.load(st, a[0])
    I.event('insert', st, fr, e, args=vals, cur=cur)
    I.store(st, a[0], mk('inserted', cur, *vals), fr, e)
    return UNIT


def populate(cx, single=True):
    F = fieldsof(cx)
    r = cx.model('populate_nodes', extra={'tokengeex::lattice::Lattice::<\'a>::insert': insert_anchor, 'tokengeex::lattice::Lattice::insert': insert_anchor}, tag='insert')
    es = r.ev('insert')
    if not es:
        raise Violation('no token is ever inserted', r.where)
    if len(es) != 1 and single:
        raise Undecided(f'{len(es)} insertions')
    e = es[0]
    LIs = [l for l in r.loops.values() if l.n is not None and l.n.op == 'len' and l.n.args[0].op == 'prefixes']
    LIs = [l for l in LIs if any(x[0] == l.lid for x in e['loops'])]
    if len(LIs) != 1:
        raise Undecided(f'{len(LIs)} loops over hits')
    return r, LIs[0], e, LIs[0].n.args[0]


def ascending(pos, LO, r):
    if veq(pos, LO.j):
        return
    d = sub(pos, LO.j)
    if d.op == 'k' and d.args[0] > 0:
        raise Violation(f'no token is searched at the first {d.args[0]} position(s) of the text', r.where)
    raise Undecided('positions are not visited in ascending order one by one')


def early(l, g, pos, ln, inp, nm, r):
    """a loop is left early only where nothing is left to be found"""
    if g is FALSE:
        return
    # hits come in ascending length
    if proves(OR(NOT(g), le(seqlen(inp), add(pos, ln)))):
        return
    w = subst(g, nm)
    if murky(w):
        raise Undecided('a loop may be left early')
    raise Violation(f'the search is left early when {show(w, 8)[:300]}', r.where)


def populated(cx):
    """without dropout every hit at every position is inserted once, with the token's own id, length and score"""
    F = fieldsof(cx)
    r, LI, e, P = populate(cx, single=False)
    LAT = 'tokengeex::lattice::Lattice'
    m, lat, drop = r.p(0), r.p(1), r.p(2)
    sent = fld(lat, 0, cx.fidx(LAT, lambda s: s.startswith('&') and '[u8]' in s))
    LO = r.loops.get(LI.stack[-1][0]) if LI.stack else None
    if LO is None or LO.stack or LO.n is None:
        raise Undecided('the hit loop is not directly inside a counted position loop')
    nm = names(r)

    def eqv(got, exp, what, pc=TRUE):
        # the sentence of a lattice is not changed by insertions
        got, exp = keepfld(got), keepfld(exp)
        if veq(got, exp, pc):
            return
        a, b = subst(got, nm), subst(exp, nm)
        why = murky(restrict(a, subst(pc, nm)), b)
        if why:
            raise Undecided(f'{what}: {why}; got {show(a, 8)[:300]}')
        raise Violation(f'{what}: got {show(a, 10)[:400]}; required {show(b, 10)[:300]}', r.where)

    def keepfld(t):
        t = LP.replace(t, vlen, ln)
        for l in r.loops.values():
            for loc, d in l.vars.items():
                if loc[1] == () and d['phi'].op == 'sym' and find(d['next'], lambda x: x.op == 'inserted'):
                    t = LP.replace(t, fld(d['phi'], 0, sent.args[2]), sent)
        return t
    el = at(P, LI.j)
    id_, ln = fld(el, 0, 0), fld(el, 0, 1)
    vlen = seqlen(F.val(at(F.v(m), id_)))
    o = offset(keepfld(P.args[1]), sent)
    if o is None:
        eqv(P.args[1], sent, 'bytes searched')
        raise Undecided('bytes searched not recognised')
    pos, hi = o
    eqv(P.args[0], fld(m, 0, F.trie), 'prefix index searched')
    limited(cx, hi, pos, seqlen(sent), m)
    eqv(hi, seqlen(sent), 'end of the bytes searched at a position')
    ascending(pos, LO, r)
    if not veq(keepfld(LO.n), add(seqlen(sent), K1)):
        eqv(LO.n, seqlen(sent), 'number of positions visited')
    for l in (LO, LI):
        early(l, nodrop(dict(drop=drop), keepfld(l.G), pos=False) if l.exits else FALSE, pos, ln, sent, nm, r)
    d = role(LI, 'lattice', lambda d: bool(find(d['next'], lambda x: x.op == 'inserted')))
    inside = AND(lt(LO.j, LO.n), lt(LI.j, LI.n), le(K0, LO.j))
    off = NOT(flt(KF(0.0), drop))
    nx = restrict(nodrop(dict(drop=drop), d['next'], pos=False), AND(inside, off))
    score = F.sc(at(F.v(m), id_))
    if nx.op == 'inserted' and nx.args[0] is d['phi'] and len(nx.args) == 5:
        for got, exp, what in zip(nx.args[1:], (pos, id_, ln, score), ('position', 'id', 'length', 'score')):
            eqv(got, exp, f'{what} with which a hit is inserted')
    eqv(nx, mk('inserted', d['phi'], pos, id_, ln, score), 'without dropout, lattice after a hit', AND(inside, off))
    lo = [x for loc, x in LO.vars.items() if x['phi'] is d['init']]
    if len(lo) != 1:
        raise Undecided('lattice entering the hit loop not recognised')
    eqv(restrict(lo[0]['next'], LO.endpc), d['final'], 'lattice after a position', LO.endpc)
    eqv(lo[0]['init'], lat, 'lattice before the first position')
    eqv(r.mem(1), lo[0]['final'], 'lattice afterwards')
    return 'every hit of the prefix index at every position, with its id, length and the score of its token'


# ------------------------------------------------------------------ C08
TR = 'tokengeex::trie::Trie'


def limited(cx, hi, pos, n, m):
    """the bytes searched are limited by a length the model keeps: whether no
    token is longer is not decided, except that adding a token must change it"""
    F = fieldsof(cx)
    for c in find(hi, lambda x: x.op == 'fld' and x.args[0] is m and x.args[2] not in (F.vocab, F.t2i, F.trie)):
        if not veq(hi, imin(n, add(pos, c))):
            continue
        ra = cx.model('add_tokens')
        if fld(ra.mem(0), 0, c.args[2]) is fld(ra.p(0), 0, c.args[2]):
            raise Violation('the bytes searched at a position are limited by a length that adding tokens does not change', ra.where)
        raise Undecided('the bytes searched at a position are limited by a length kept in the model')


def index_values(cx, name):
    F = fieldsof(cx)
    r = cx.tok(name, anchors='TRIE') if name == 'add_base_tokens' else cx.model(name)
    cx.clear(r)
    m = r.p(0)
    if name == 'from':
        items, v0, end = r.p(0), EMPTY, r.ret
    elif name == 'add_base_tokens':
        t0, t1 = m, r.mem(0)
        n = len(cx.fty('tokengeex::tokenizer::Tokenizer'))
        m, end = (t and fld(t, 0, F.model) for t in (t0, t1))
        items = mk('items', r.p(1))
        v0 = F.v(m)
        for i in range(n):
            if i != F.model and end is not None:
                cx.same(fld(t1, 0, i), fld(t0, 0, i), 'the rest of the tokenizer', r)
        if end is None or end is m:
            raise Violation('the tokens are not added to the model', r.where)
    else:
        items = mk('items', r.p(1))
        v0 = F.v(m)
        end = r.mem(0)
    Ls = [l for l in r.top(None) if any(find(d['next'], lambda x: x.op == 'tput') for d in l.vars.values())]
    if not Ls:
        kept = fld(end, 0, F.trie)
        if kept is fld(m, 0, F.trie) if name != 'from' else emptytrie(cx, kept):
            raise Violation('no token is entered into the prefix index', r.where)
    if len(Ls) != 1:
        raise Undecided(f'{len(Ls)} loops fill the prefix index')
    L = Ls[0]
    if L.n is None:
        raise Undecided('loop not counted')
    if name == 'from' and L.n.op == 'len' and L.n.args[0].op == 'entries':
        return from_map(cx, r, L, items, end)
    cx.same(L.n, seqlen(items), 'tokens entered', r)
    if L.pc is not TRUE:
        # a path that leaves out the loop
        skip = restrict(end, NOT(L.pc))
        if not proves(OR(L.pc, lt(seqlen(items), K1))):
            why = murky(L.pc)
            if why:
                raise Undecided(why)
            raise Violation(f'no token is entered when {show(NOT(L.pc), 8)[:300]}', r.where)
        none = lambda t: LP.replace(t, items, EMPTY)
        if name != 'from':
            cx.same(none(skip), none(m), 'the model after adding no tokens', r)
        else:
            cx.must(emptytrie(cx, fld(skip, 0, F.trie)) or murky(skip), 'the prefix index of an empty vocabulary is not empty', r)
            cx.same(fld(skip, 0, F.t2i), MEMPTY, 'the map of an empty vocabulary', r)
            cx.same(none(fld(skip, 0, F.vocab)), EMPTY, 'an empty vocabulary', r)
        end = restrict(end, L.pc)
    cx.must(not L.exits, 'the loop may stop early', r)
    tk = at(items, L.j)
    val = F.val(tk)
    # the id of the j-th item
    tr = role(L, 'prefix index', lambda d: bool(find(d['next'], lambda x: x.op == 'tput')))
    nm = {L.j: sym('item')}
    for d in L.vars.values():
        if d['phi'].op == 'sym':
            nm[d['phi']] = sym('v', str(d['phi']))
    vl = [d for d in L.vars.values() if d['next'].op == 'cat' and d['next'].args and d['next'].args[0] is d['phi'] and veq(d['init'], v0)]
    vclosed = fld(end, 0, F.vocab)

    def eqv(got, exp, what):
        if veq(got, exp, L.endpc):
            return
        why = murky(subst(got, nm), subst(exp, nm))
        if why:
            raise Undecided(f'{what}: {why}')
        raise Violation(f'{what}: got {show(subst(got, nm), 8)[:300]}; required {show(subst(exp, nm), 8)[:300]}', r.where)
    if not veq(L.endpc, lt(L.j, L.n)) and L.endpc is not TRUE and restrict(L.endpc, AND(L.pc, lt(L.j, L.n))) is not TRUE:
        raise Undecided('iteration may be left')
    ids = [add(seqlen(v0), L.j)] + [seqlen(d['phi']) for d in vl]
    nx = tr['next']
    got = None
    for i in ids:
        if veq(nx, mk('tput', tr['phi'], val, tup(i, seqlen(val))), L.endpc):
            got = i
            break
    if got is None:
        eqv(nx, mk('tput', tr['phi'], val, tup(ids[-1], seqlen(val))), 'entry added to the prefix index')
    mp = [d for d in L.vars.values() if find(d['next'], lambda x: x.op == 'mset')]
    if len(mp) > 1:
        raise Undecided(f'{len(mp)} maps are filled')
    m0 = MEMPTY if name == 'from' else fld(m, 0, F.t2i)
    if mp:
        mp = mp[0]
        for i in ids:
            if veq(mp['next'], mset(mp['phi'], val, i), L.endpc):
                break
        else:
            eqv(mp['next'], mset(mp['phi'], val, ids[-1]), 'entry added to the token-to-id map')
    else:
        # filled on its own
        jm = J('map')
        im = at(items, jm)
        exp = LP.mbuild(seqlen(items), jm, tup(TRUE, F.val(im), add(seqlen(v0), jm)), m0)
        got = fld(end, 0, F.t2i)
        if got is m0 or got is MEMPTY:
            raise Violation('the token-to-id map is not filled', r.where)
        if not veq(got, exp):
            cx.same(got, exp, 'token-to-id map', r)
        mp = dict(init=m0, final=got)
    # final state
    exp = items if name == 'from' else cat(v0, items)
    if vl:
        cx.must(veq(vl[0]['next'], cat(vl[0]['phi'], one(tk)), L.endpc) or murky(vl[0]['next']), 'vocabulary entry appended', r)
    V = vclosed
    got = V
    exp2 = cat(v0, concat(seqlen(items), lambda j: one(at(items, j))))
    if not (veq(got, exp) or veq(got, exp2)):
        cx.same(got, exp, 'vocabulary afterwards', r)
    cx.must(fld(end, 0, F.trie) is tr['final'], 'the prefix index built is the one kept', r)
    cx.must(fld(end, 0, F.t2i) is mp['final'], 'the map built is the one kept', r)
    if name == 'from':
        cx.same(mp['init'], MEMPTY, 'map at the start', r)
        cx.must(emptytrie(cx, tr['init']), f'the prefix index must start empty: {show(tr["init"], 5)[:200]}', r)
    else:
        cx.same(mp['init'], fld(m, 0, F.t2i), 'map before', r)
        cx.same(tr['init'], fld(m, 0, F.trie), 'prefix index before', r)
    return 'item j: list[|list|], map[bytes] and trie[bytes] get the same id, trie also the byte length'


def from_map(cx, r, L, items, end):
    """the prefix index made from the finished map"""
    F = fieldsof(cx)
    M = L.n.args[0].args[0]
    jm = J('map')
    exp = LP.mbuild(seqlen(items), jm, tup(TRUE, F.val(at(items, jm)), jm), MEMPTY)
    cx.same(M, exp, 'token-to-id map', r)
    cx.same(fld(end, 0, F.t2i), M, 'the map kept', r)
    cx.same(fld(end, 0, F.vocab), items, 'vocabulary', r)
    if L.exits or L.pc is not TRUE:
        raise Undecided('the loop that fills the prefix index may be left early')
    tr = role(L, 'prefix index', lambda d: bool(find(d['next'], lambda x: x.op == 'tput')))
    e = at(L.n.args[0], L.j)
    k, v = fld(e, 0, 0), fld(e, 0, 1)
    want = mk('tput', tr['phi'], k, tup(v, seqlen(k)))
    if not veq(tr['next'], want, L.endpc):
        why = murky(tr['next'])
        if why:
            raise Undecided(why)
        raise Violation(f'entry added to the prefix index: got {show(tr["next"], 8)[:300]}; required {show(want, 8)[:200]}', r.where)
    cx.must(emptytrie(cx, tr['init']), f'the prefix index must start empty: {show(tr["init"], 5)[:200]}', r)
    cx.must(fld(end, 0, F.trie) is tr['final'], 'the prefix index built is the one kept', r)
    return 'prefix index made from the entries of the map'


def emptytrie(cx, t):
    return t.op in ('agg', 'dflt', 'default') and not find(t, lambda x: x.op in ('mset', 'tput')) and not find(t, lambda x: x.op == 'sym')


def trie_fields(cx):
    a = cx.prog.adt_by_path.get(TR)
    if a is None:
        raise Undecided('Trie not found')
    f = a['variants'][0]['fields']
    if len(f) != 1:
        raise Undecided('Trie has several fields')
    N = 'tokengeex::trie::Node'
    if N not in cx.prog.adt_by_path:
        raise Undecided('Node not found')
    data = cx.fidx(N, lambda s: 'Option<' in s and 'HashMap' not in s)
    kids = cx.fidx(N, lambda s: 'HashMap<' in s or 'BTreeMap<' in s)
    return 0, data, kids


def names(r):
    m = {}
    for l in r.loops.values():
        m[l.j] = sym('i', str(l.lid))
        for loc, v in l.vars.items():
            if v['phi'].op == 'sym':
                m[v['phi']] = sym('v', str(loc[0]))
            elif v['phi'].op == 'ite' and v['phi'].args[0].op == 'sym':
                m[v['phi'].args[0]] = sym('v', str(loc[0]))
    return m


def req(r, got, exp, what, pc=TRUE, where=None):
    """got equals exp under pc, loop-local names aside"""
    if veq(got, exp, pc):
        return
    m = names(r)
    a, b = subst(got, m), subst(exp, m)
    why = murky(restrict(a, subst(pc, m)), b)
    if why:
        raise Undecided(f'{what}: {why}; got {show(a, 8)[:300]}')
    raise Violation(f'{what}: got {show(restrict(a, subst(pc, m)), 10)[:400]}; required {show(b, 10)[:400]}', where or r.where)


def iter_fields(cx):
    I_ = 'tokengeex::trie::TrieIterator'
    if I_ not in cx.prog.adt_by_path:
        raise Undecided('TrieIterator not found')
    node = cx.fidx(I_, lambda s: 'Node<' in s)
    pre = cx.fidx(I_, lambda s: 'Vec<u8>' in s)
    n = len(cx.fty(I_))
    if n != 3:
        raise Undecided('TrieIterator has other fields')
    return node, ({0, 1, 2} - {node, pre}).pop()


def trie_next(cx):
    """TrieIterator::next: one child per byte, stored data of the node reached"""
    root_, data, kids = trie_fields(cx)
    fn, fi = iter_fields(cx)
    b = cx.method('tokengeex::trie::TrieIterator', 'next', 'Iterator', crate=LIB)
    r = cx.run(b, None)
    cx.clear(r)
    s = r.p(0)
    L = mainloop(r)
    nd = role(L, 'node', lambda d: d['init'] is fld(s, 0, fn))
    it = role(L, 'byte source', lambda d: d['init'] is fld(s, 0, fi))
    n, i = nd['phi'], it['phi']
    v = mk('inextv', i)
    byte = fld(v, 1, 0)
    child = mget(fld(n, 0, kids), byte)
    more, h = is_some(v), has(fld(n, 0, kids), byte)
    d = fld(child, 0, data)
    go = AND(more, h, NOT(is_some(d)))
    hit = AND(more, h, is_some(d))
    # without children the search may just as well end at once
    leaf = lt(mk('cnt', fld(child, 0, kids)), K1)
    if not veq(L.endpc, go) and veq(L.endpc, AND(go, NOT(leaf))):
        go = AND(go, NOT(leaf))
    # what has no children has no child for the byte
    A = OR(NOT(lt(mk('cnt', fld(n, 0, kids)), K1)), NOT(h))
    go, hit = AND(go, A), AND(hit, A)
    req(r, L.endpc, go, 'the search goes on exactly past nodes without data', A)
    req(r, nd['next'], child, 'node after a byte', go)
    req(r, it['next'], mk('inext', i), 'bytes left after a byte', go)
    req(r, is_some(r.ret), hit, 'a token is reported exactly at nodes with data', AND(A, NOT(go)))
    req(r, fld(r.ret, 1, 0), fld(d, 1, 0), 'what is reported is the data stored at the node reached', hit)
    e = r.mem(0)
    req(r, fld(e, 0, fn), child, 'node from which the search resumes', hit)
    req(r, fld(e, 0, fi), mk('inext', i), 'bytes from which the search resumes', hit)
    return 'one child per byte; stops without one; reports stored data, shortest first'


def trie_search(cx):
    root_, data, kids = trie_fields(cx)
    fn, fi = iter_fields(cx)
    b = cx.prog.method(TR, 'common_prefix_search', None, LIB)
    if b is None:
        raise Undecided('not found')
    r = cx.run(b, None)
    req(r, fld(r.ret, 0, fn), fld(r.p(0), 0, root_), 'node the search starts at')
    req(r, fld(r.ret, 0, fi), r.p(1), 'bytes searched')
    cx.clear(r)
    return 'starts at the root, over the given bytes'


def trie_push(cx):
    root_, data, kids = trie_fields(cx)
    b = cx.prog.method(TR, 'push', None, LIB)
    if b is None:
        raise Undecided('not found')
    r = cx.run(b, None)
    cx.clear(r, only=lambda x: x[0] != 'assign')
    s, key, val = r.p(0), r.p(1), r.p(2)
    L = mainloop(r)
    req(r, L.n if L.n is not None else mk('unk', 'n'), seqlen(key), 'children walked')
    if L.exits:
        raise Undecided('walk left early')
    ptr = role(L, 'pointer', lambda d: d['init'].op == 'ref')
    P0 = root('P', 0)
    i = ptr['init']
    if i.args[0] is not P0 or [x[:3] for x in i.args[1]] != [('f', 0, root_)]:
        raise Undecided('walk does not start at the root node')
    nx = ptr['next']
    p = ptr['phi']
    D = mk('rootd', p)
    byte = at(key, L.j)
    if nx.op != 'ref' or nx.args[0] is not D:
        raise Undecided(f'pointer step not recognised: {show(nx, 6)[:200]}')
    path = nx.args[1]
    if len(path) != 2 or path[0][:3] != ('f', 0, kids) or path[1][0] != 'k':
        raise Undecided('pointer step not recognised')
    req(r, path[1][1], byte, 'byte under which a child is looked up')
    k = [d for loc, d in L.vars.items() if loc[0] is D]
    if len(k) != 1:
        raise Undecided('children not recognised')
    k = k[0]
    kp = k['phi']
    empty = agg('tokengeex::trie::Node', 0, tuple(NONE if x == data else MEMPTY for x in range(2)))
    req(r, k['next'], ite(has(kp, byte), kp, mset(kp, byte, empty)), 'children of a walked node')
    for loc, d in L.vars.items():
        if d is ptr or d is k or (loc[0].op == 'root' and loc[0].args[0] != 'P'):
            # (a local of the walk: what it is used for shows in the steps above)
            continue
        if d['next'] is not d['phi'] and d['next'] is not d['init']:
            raise Undecided('the walk changes something else')
    ws = r.ev('wstore')
    if len(ws) != 1:
        if not ws:
            raise Violation('the data is never stored', r.where)
        raise Undecided(f'{len(ws)} stores')
    w = ws[0]
    v = w['v']
    if not (v.op == 'fld' and v.args[0] is ptr['final']):
        raise Undecided('stored place not recognised')
    cx.must(v.args[2] == data, 'the data is stored at the node reached', r)
    kept = [g for g, l in leaves(w['val']) if l is v]
    if kept and FALSE not in kept:
        raise Violation(f'a token already stored is kept when {show(kept[0], 4)[:120]}', r.where)
    req(r, w['val'], some(val), 'stored data')
    req(r, LP.replace(w['pc'], ptr['final'], sym('reached')), TRUE, 'condition under which the data is stored')
    return 'walks or creates one empty child per byte, in order, then stores the data'


def c08(cx):
    cx.ob('from', 'Model::from enters every token into list, map and prefix index under the same id', index_values, cx, 'from')
    cx.ob('add', 'Model::add_tokens enters every token into list, map and prefix index under the same id', index_values, cx, 'add_tokens')
    cx.ob('add-base', 'Tokenizer::add_base_tokens adds every token given to its model, and changes nothing else', index_values, cx, 'add_base_tokens')
    cx.ob('trie-insert', 'Trie::push walks or creates one child per byte and stores the data at the last', trie_push, cx)
    cx.ob('trie-search', 'the prefix search starts at the root over the given bytes', trie_search, cx)
    cx.ob('trie-step', 'each step of the search consumes one byte, descends to its child and yields the data stored there', trie_next, cx)

    def lookups():
        F = fieldsof(cx)
        r = cx.model('token_to_id')
        x = fld(r.p(0), 0, F.t2i)
        cx.same(r.ret, ite(has(x, r.p(1)), some(mget(x, r.p(1))), NONE), 'Model::token_to_id', r)
        r = cx.model('id_to_token')
        v = F.v(r.p(0))
        cx.same(r.ret, ite(lt(r.p(1), seqlen(v)), some(at(v, r.p(1))), NONE), 'Model::id_to_token', r)
        r = cx.model('vocab_size')
        cx.same(r.ret, seqlen(F.v(r.p(0))), 'Model::vocab_size', r)
        r = cx.model('vocab')
        cx.same(r.ret, F.v(r.p(0)), 'Model::vocab', r)
        return 'each reads its own index'
    cx.ob('lookups', 'lookups read the index they name', lookups)

    def search():
        F = fieldsof(cx)
        r = cx.model('common_prefix_search')
        ps = find(r.ret, lambda x: x.op == 'prefixes')
        if len(ps) != 1:
            raise Undecided('result is not a search')
        p = ps[0] if isinstance(ps, list) else list(ps)[0]
        cx.same(p, hits(r.p(0), F, r.p(1)), 'Model::common_prefix_search', r)
        return 'the prefix index over the given bytes'
    cx.ob('search', 'Model::common_prefix_search searches the prefix index over the given bytes', search)

    def empty():
        root_, data, kids = trie_fields(cx)
        n = 0
        for ty, exp in (('tokengeex::trie::Trie', None), ('tokengeex::trie::Node', None)):
            b = cx.prog.method(ty, 'default', 'std::default::Default', LIB)
            if b is None:
                raise Undecided('derived default')
            r = cx.run(b, None)
            node = agg('tokengeex::trie::Node', 0, tuple(NONE if x == data else MEMPTY for x in range(2)))
            cx.same(r.ret, node if ty.endswith('Node') else agg(TR, 0, (node,)), f'empty {ty}', r)
            n += 1
        return 'no data, no children'
    cx.ob('empty', 'a new prefix index is empty', empty)

    def kept(b, path):
        """another method that takes the model mutably leaves the ids and values of all tokens"""
        F = fieldsof(cx)
        r = cx.run(b, None)
        m, end = r.p(0), r.mem(0)
        cx.clear(r)
        if end is None or end is m:
            return
        v0, v1 = F.v(m), F.v(end)
        same = all(veq(fld(m, 0, i), fld(end, 0, i)) for i in (F.t2i, F.trie))
        if not same:
            raise Undecided(f'{path} changes an index of the model')
        j = J('kept')
        for what, x, y in (('number of tokens', seqlen(v1), seqlen(v0)), ('bytes of a token', F.val(at(v1, j)), F.val(at(v0, j)))):
            def sameleaf(g, l):
                if veq(l, y, g):
                    return True
                # the element at an index which the path shows to be this one
                for a in find(l, lambda t: t.op == 'at' and t.args[0] is v0):
                    i = a.args[1]
                    if AND(g, lt(i, j)) is FALSE and AND(g, lt(j, i)) is FALSE and LP.replace(l, a, at(v0, j)) is y:
                        return True
                return False
            if not all(sameleaf(g, l) for g, l in leaves(x, lt(j, seqlen(v0)))):
                why = murky(x, y)
                if why:
                    raise Undecided(f'{path} changes the vocabulary: {why}')
                raise Violation(f'{path} changes the {what} of the vocabulary alone: got {show(x, 8)[:300]}', r.where)

    def writers():
        """only construction, addition and (de)serialization build or change the indexes"""
        F = fieldsof(cx)
        n = 0
        for h, b in cx.prog.bodies.items():
            d = cx.prog.defs[h]
            if b['crate'].id != LIB or '{closure' in d['path'] or not b['params']:
                continue
            st = b['crate'].types[d['self_ty']] if 'self_ty' in d else None
            if st is None or st.get('path') != 'tokengeex::model::Model' or d.get('name') in ('from', 'add_tokens'):
                continue
            pt = b['crate'].types[b['params'][0]['ty']]
            if pt['k'] == 'ref' and pt['mut'] and not helper(cx, h):
                kept(b, d['path'])
            n += 1
        a = cx.prog.adt_by_path['tokengeex::model::Model']
        pub = [f['name'] for f in a['variants'][0]['fields'] if f.get('pub')]
        if pub:
            raise Undecided(f'Model.{pub[0]} can be changed from outside')
        return f'{n} other methods, none takes the model mutably; no public field'
    cx.ob('writers', 'no other method changes the model', writers)
