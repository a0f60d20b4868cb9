"""The pruner: what each step keeps, how far it goes, what it counts (prune parts of C19, C21, C25, C33)."""
from train import *
from accum import subst2

PRUNER = 'tokengeex::prune::ModelVocabularyPruner'


class Ent:
    """for every i < n, `el` is in the list when `must`, and is at most there when `may`; `prm` when positions are permuted"""

    def __init__(self, j, n, may, must, el):
        self.j, self.n, self.may, self.must, self.el = j, n, may, must, el

    def rep(self, f):
        return Ent(self.j, f(self.n), f(self.may), f(self.must), f(self.el))


def anystate(t):
    """a list that only grows, by pieces that depend on what was gathered before: that may be anything"""
    n, inits = t.args[2][0], t.args[2][1:]
    phs, j = [fresh('so far') for _ in inits], fresh('k')
    nx = open_(t, *phs, j).args[2][0]
    if suffix(nx, phs[0]) is None:
        raise Undecided(f'list not recognised: {show(t, 4)[:200]}')
    return n, j, nx, phs[0]


def parallel(L):
    """a list that has for every i < N, in order, at most one element: (N, i, condition, element)"""
    L = unitems(L)
    if L.op == 'fix' and L.args[2][1] is EMPTY:
        N, i, body, ph = anystate(L)
        body = [(g2, y) for g, x in leaves(body) for g2, y in leaves(cat(*x.args[1:]) if x.op == 'cat' else EMPTY, g)]
    elif L.op == 'bc':
        N = L.args[2][0]
        i = fresh('i')
        body = leaves(open_(L, i))
    else:
        return None
    c, el = FALSE, None
    for g, x in body:
        if x is EMPTY:
            continue
        if x.op != 'one':
            return None
        el = x.args[0] if el is None else ite(g, x.args[0], el)
        c = OR(c, g)
    return (N, i, c, el) if el is not None else None


def fuse(j, n, el, pc):
    """el as a function of the position j in lists filtered alike, rewritten to the position i before filtering"""
    # a list gone through backwards
    idx = {x.args[1] for x in subterms(el) if x.op == 'at' and free(x.args[1], j) and peel(x.args[0]).op in ('bc', 'sorted')}
    back = {x.args[0] for x in subterms(el) if x.op == 'at' and free(x.args[1], j) and peel(x.args[0]).op in ('bc', 'sorted')}
    flip = len(back) == 1 and idx == {sub(sub(seqlen(list(back)[0]), K1), j)}
    if flip:
        el = LP.replace(el, at(list(back)[0], list(idx)[0]), at(list(back)[0], j))
    Ls = {x.args[0] for x in subterms(el) if x.op == 'at' and x.args[1] is j and unitems(x.args[0]).op in ('bc', 'sorted')}
    out = None
    m = {}
    for L in sorted(Ls, key=lambda x: (unitems(x).op == 'sorted', x.id)):
        S = L
        perm = unitems(L).op == 'sorted' or flip
        while S.op in ('sorted', 'rev', 'items'):
            S = S.args[0]
        p = parallel(S)
        if p is None:
            return None
        N, i, c, e = p
        full = veq(n, seqlen(S), pc)
        if out is None:
            out = (N, i, c, full, perm)
        else:
            if perm or out[4]:
                m[at(L, j)] = sym('acc', 'of another token', L.id)
                continue
            a = {i: out[1]}
            c, e = subst(c, a), subst(e, a)
            if N is not out[0] and not veq(N, out[0], pc) or not proves(OR(NOT(AND(pc, lt(out[1], N))), IFF(c, out[2]))):
                why = murky(c, out[2])
                if why and 'loop' not in why:
                    raise Undecided('lists that are gone through together are filtered differently')
                m[at(L, j)] = sym('acc', 'of another token', L.id)
                continue
        m[at(L, j)] = e
    if out is None:
        return None
    for a, b in m.items():
        el = LP.replace(el, a, b)
    for x in [x for x in subterms(el) if x.op == 'at' and free(x.args[1], j) and unitems(x.args[0]).op in ('bc', 'sorted')]:
        el = LP.replace(el, x, sym('acc', 'of another token', x.id))
    if free(el, j):
        return None
    return out[0], out[1], out[2], out[3], el


def free(t, j):
    return j in t.fv or t is j


def contents(t, pc=TRUE, must=TRUE):
    """what a list holds, whatever the order: [Ent]"""
    t = unsort(unitems(t))
    if t is EMPTY:
        return []
    if t.op == 'ite':
        return [e for g, l in leaves(t, pc) for e in [Ent(x.j, x.n, AND(g, x.may), AND(g, x.must), x.el) for x in contents(l, AND(pc, g), must)]]
    if t.op == 'cat':
        return [e for p in t.args for e in contents(p, pc, must)]
    if t.op == 'one':
        return [Ent(fresh('u'), K1, TRUE, TRUE, t.args[0])]
    if t.op == 'slice':
        return [Ent(e.j, e.n, e.may, FALSE, e.el) for e in contents(t.args[0], pc, must)]
    if t.op == 'fix':
        n, j, nx, ph = anystate(t)
        return contents(t.args[2][1], pc, must) + rounds(n, j, nx, pc, ph)
    if t.op == 'fld' and t.args[0].op not in ('fld', 'at'):
        j = fresh('k')
        return [Ent(j, seqlen(t), TRUE, TRUE, at(t, j))]
    if t.op != 'bc':
        raise Undecided(f'list not recognised: {show(t, 4)[:200]}')
    n = t.args[2][0]
    j = fresh('k')
    return rounds(n, j, open_(t, j), pc)


def rounds(n, j, body, pc, ph=None):
    out = []
    for g, x in leaves(body):
        if ph is not None:
            x = cat(*x.args[1:]) if x.op == 'cat' and x.args[0] is ph else EMPTY if x is ph else x
        if x is EMPTY:
            continue
        xs = [(AND(g, g2), z) for y in (x.args if x.op == 'cat' else (x,)) for g2, z in leaves(y) if AND(g, g2) is not FALSE]
        for g, y in xs:
            if y is EMPTY:
                continue
            if y.op != 'one':
                raise Undecided(f'list not recognised: {show(x, 4)[:200]}')
            f = fuse(j, n, y.args[0], AND(pc, lt(j, n)))
            if f is None:
                out.append(Ent(j, n, g, g, y.args[0]))
                continue
            if j in g.fv:
                f2 = fuse(j, n, tup(y.args[0], g), AND(pc, lt(j, n)))
                N, i, c, full, el = f2
                g2 = fld(el, 0, 1)
                el = fld(el, 0, 0)
            else:
                N, i, c, full, el = f
                g2 = g
            out.append(Ent(i, N, AND(c, g2), AND(c, g2) if full else FALSE, el))
    return out


class P:
    pass


def shrink(t, F):
    """fields of a freshly built model"""
    hits = [x for x in subterms(t) if x.op == 'fld' and x.args[0].op == 'm_from' and x.args[2] == F.vocab]
    for x in sorted(hits, key=lambda x: -x.id):
        t = LP.replace(t, x, x.args[0].args[0])
    return t


def pruning(cx):
    if 'pruning' in cx.cache:
        if isinstance(cx.cache['pruning'], Exception):
            raise cx.cache['pruning']
        return cx.cache['pruning']
    try:
        q = cx.cache['pruning'] = _pruning(cx)
    except (Undecided, Violation) as ex:
        cx.cache['pruning'] = ex
        raise
    return q


def _pruning(cx):
    q = P()
    F = fieldsof(cx)
    r = cx.run(cx.method(PRUNER, 'prune', crate=CLI), 'TRAIN')
    cx.clear(r)
    q.r, q.F = r, F
    q.me, q.M, q.S = r.p(0), r.p(1), r.p(2)
    q.size = fld(q.me, 0, cx.fnamed(PRUNER, 'vocab_size'))
    q.dropout = fld(q.me, 0, cx.fnamed(PRUNER, 'dropout'))
    # every loop that replaces the model
    q.ml = []
    for l in r.loops.values():
        for loc, d in l.vars.items():
            if loc[0] == root('P', 1) and d['next'] is not d['phi']:
                if loc[1]:
                    raise Undecided(f'{r.path}: the model is changed in place')
                q.ml.append((l, d))
    outer = [(l, d) for l, d in q.ml if not l.stack]
    if len(outer) != 1:
        raise Undecided(f'{r.path}: {len(outer)} pruning loops')
    q.outer, q.od = outer[0]
    # every model that is built: the step and the model it starts from
    q.steps = []
    cur = {d['phi'] for _, d in q.ml} | {d['final'] for _, d in q.ml if d['final'] is not None}
    q.cur = cur
    for l, d in q.ml:
        for g, v in leaves(d['next'], l.endpc):
            if v in cur:
                continue
            if v.op != 'm_from':
                raise Undecided(f'{r.path}: the new model is not recognised: {show(v, 4)[:200]}')
            s = P()
            s.l, s.d, s.g, s.list = l, d, g, v.args[0]
            s.ents = contents(v.args[0], AND(l.endpc, g))
            bases = set()
            for e in s.ents:
                V = [x.args[0] for x in subterms(e.el) if x.op == 'at' and x.args[0].op == 'fld' and x.args[0].args[2] == F.vocab and
                     (x.args[0].args[0] in cur or x.args[0].args[0] is q.M) and x.args[1] is e.j]
                if not V:
                    whyo = e.el.op == 'agg' and murky(F.val(e.el))
                    if whyo:
                        raise Undecided(f'{r.path}: an element of the new vocabulary is not recognised: {show(e.el, 5)[:200]}')
                    raise Undecided(f'{r.path}: an element of the new vocabulary does not stem from the old one: {show(e.el, 6)[:200]}')
                bases |= set(V)
            if len(bases) != 1:
                raise Undecided(f'{r.path}: a step mixes several vocabularies' if bases else f'{r.path}: a step empties the vocabulary')
            s.V = bases.pop()
            s.M = s.V.args[0]
            q.steps.append(s)
    if not q.steps:
        raise Undecided(f'{r.path}: the vocabulary is not changed')
    return q


def name(q, s):
    return 're-estimation' if any(x.op == 'at' and x.args[0].op == 'fix' and x.args[1] is e.j for e in s.ents for x in subterms(q.F.sc(e.el)) if q.F.sc(e.el).op != 'fld') else 'pruning pass'


def prune_keep(cx):
    q = pruning(cx)
    n = 0
    for s in q.steps:
        # all entries over the same index
        groups = {}
        for e in s.ents:
            i = fresh('i')
            e2 = e
            m = {e.j: i}
            groups.setdefault('x', []).append(e)
        i = fresh('i')
        must = OR(*[subst(e.must, {e.j: i}) for e in s.ents if veq(e.n, seqlen(s.V), s.g)])
        c = OR(NOT(AND(s.g, lt(i, seqlen(s.V)))), NOT(atom_(q.F.kp(at(s.V, i)))), must)
        if not proves(c):
            c = abstract(q, c)
            if not proves(c):
                cx.holds(c, f'{name(q, s)}: a token marked keep is removed', q.r)
        n += 1
    return f'{n} steps: every token marked keep is put into the new vocabulary'


def prune_mark(cx):
    q = pruning(cx)
    for s in q.steps:
        for e in s.ents:
            same(cx, q, q.F.kp(e.el), q.F.kp(at(s.V, e.j)), f'{name(q, s)}: the keep mark of a token', AND(e.may, lt(e.j, e.n)))
    return 'marks unchanged'


def abstract(q, t):
    """the model at hand, and everything counted with it, become plain symbols"""
    m = {}
    for x in subterms(t):
        if x.op == 'fix' and x not in q.cur:
            m[x] = sym('counted', x.id)
    for x in sorted(m, key=lambda y: -y.id):
        t = LP.replace(t, x, m[x])
    for k, x in enumerate(sorted(q.cur, key=lambda y: -y.id)):
        t = LP.replace(t, x, sym('model', x.id))
    for x in {x for x in subterms(t) if x.op == 'sym' and x.args and x.args[0] == 'j'}:
        y = sym('round', x.id)
        TT.declare_nonneg(y)
        t = LP.replace(t, x, y)
    return t


def same(cx, q, a, b, what, pc):
    if veq(a, b, pc):
        return
    cx.same(abstract(q, a), abstract(q, b), what, q.r, abstract(q, pc))


def only_removes(cx):
    q = pruning(cx)
    n = 0
    for s in q.steps:
        nm = name(q, s)
        if s.M not in q.cur:
            raise Violation(f'{nm}: starts from {show(s.M, 4)[:100]}, not from the current model', q.r.where)
        for e in s.ents:
            if not veq(e.n, seqlen(s.V), s.g):
                if e.n is K1:
                    raise Undecided(f'{nm}: a single token is added')
                raise Undecided(f'{nm}: goes over {show(abstract(q, e.n), 5)[:200]}')
            T = at(s.V, e.j)
            pc = AND(e.may, lt(e.j, e.n))
            same(cx, q, q.F.val(e.el), q.F.val(T), f'{nm}: the value of a token', pc)
        for a in range(len(s.ents)):
            for b in range(a):
                x, y = s.ents[a], s.ents[b]
                both = AND(x.may, subst(y.may, {y.j: x.j}), lt(x.j, x.n))
                if not proves(NOT(both)):
                    c = abstract(q, NOT(both))
                    if not proves(c):
                        if any(z.op == 'sym' and z.args[:2] == ('acc', 'so far') for z in subterms(both)):
                            raise Undecided(f'{nm}: what is added depends on what was added before')
                        cx.holds(c, f'{nm}: a token is put into the new vocabulary twice', q.r)
        n += len(s.ents)
    return f'{len(q.steps)} steps, {n} sources of tokens, pairwise exclusive'


def passes(cx):
    q = pruning(cx)
    V = seqlen(q.F.v(q.od['phi']))
    big = lt(q.size, V)
    n = 0
    for l, d in q.ml:
        pc = l.endpc if l is q.outer else l.pc
        c = OR(NOT(pc), big)
        if not proves(c):
            cx.holds(benign(abstract(q, c)), 'a pass is made although the vocabulary is at or below the requested size', q.r)
        n += 1
    # getting there
    start = OR(q.outer.pc, NOT(lt(q.size, seqlen(q.F.v(q.od['init'])))), lt(seqlen(q.S), K1))
    if not proves(start):
        if not any(is_ok(l) is TRUE or okish(l, g) for g, l in leaves(q.r.ret, NOT(q.outer.pc))):
            pass    # an error
        else:
            cx.holds(abstract(q, start), 'nothing is pruned although the vocabulary is above the requested size', q.r)
    # leaving
    nxt = seqlen(shrink(q.F.v(q.od['next']), q.F))
    for k, g, st, val in q.outer.exits:
        if val is not None and not okish(val, g):
            continue
        left = None
        c = OR(NOT(g), le(V, q.size), le(V, num(shrunk(q, q.od['next']))))
        if st is not None:
            # the vocabulary the pass leaves behind is already small enough
            M = LP.getv(q.r.I, st, (root('P', 1), ()))
            if M is not None and M is not q.od['phi']:
                c = OR(c, le(num(q.F.v(M)), q.size))
        if proves(c):
            continue
        c = lens(abstract(q, shrink(c, q.F)))
        if not proves(c):
            cx.holds(benign(c), 'pruning stops early although the last pass removed tokens and the vocabulary is above the requested size', q.r)
    return f'{n} loops run only above the requested size'


def okish(v, g):
    return any(AND(g, g2) is not FALSE for g2, l in leaves(is_ok(v)) if l is not FALSE) if True else True


def num(t):
    return seqlen(t)


def shrunk(q, m):
    return shrink(q.F.v(m), q.F)


def stopping(cx):
    """how far a pass goes"""
    q = pruning(cx)
    done = 0
    for s in q.steps:
        if all(e.may is e.must or proves(IFF(e.may, e.must)) for e in s.ents):
            continue
        nm = name(q, s)
        # the list: what stays in any case, then the best candidates
        L = s.list
        perm = unsort(L)
        whole = [(AND(g, h), unsort(k)) for g, l in leaves(perm, s.g) for h, k in leaves(unsort(l), AND(s.g, g))]
        for g, l in whole:
            if l is s.V and pv(q, NOT(g)):
                continue    # such a pass makes no progress, and is the last one
            parts_ = l.args if l.op == 'cat' else (l,)
            cand = []
            for p in parts_:
                for g2, p2 in leaves(p, g):
                    es = contents(p2, g2)
                    if any(e.must is FALSE or e.may is not e.must for e in es) or any(candlist(e, p2) for e in es):
                        cand.append((p, p2, g2))
            ps = {c[0] for c in cand}
            if not ps:
                continue
            if len(ps) != 1:
                raise Undecided(f'{nm}: candidates are taken up in several places')
            rest = cat(*[p for p in parts_ if p not in ps])
            for p, p2, g2 in cand:
                done += 1
                m, K_ = taken(p2)
                C = cands(q, p2)
                full = seqlen(C)
                P0 = seqlen(rest)
                tot = add(P0, m)
                ren, hyp = witness(g2, m, P0, (q.size,))
                # skipped only at the requested size
                goal = OR(NOT(g2), NOT(hyp), le(full, m), le(q.size, tot))
                dec(cx, q, goal, f'{nm}: a candidate is dropped although the vocabulary is not larger than requested')
                # and dropped when there are enough
                ts = bounds(q, g2, m, P0)
                ok_ = False
                for T in ts:
                    h = AND(witness(g2, m, P0, (T,))[1], hyp)
                    goal = OR(NOT(g2), NOT(h), lt(T, P0), le(tot, T))
                    g3 = OR(NOT(h), NOT(g2), le(q.size, T))
                    if pv(q, goal) and pv(q, g3):
                        ok_ = True
                        break
                if not ok_:
                    if not ts:
                        raise Violation(f'{nm}: every candidate is kept, whatever the requested size', q.r.where)
                    for T in ts:
                        if P0 is not K0 and not find(T, lambda x: x is P0 or x.op == 'bsum' and x in set(subterms(P0))) and pv(q, OR(NOT(g2), le(m, T))) \
                                and pv(q, OR(NOT(g2), le(T, m), le(full, m))):
                            raise Violation(f'{nm}: {show(abstract(q, T), 4)[:120]} candidates are kept on top of the tokens that stay in any case', q.r.where)
                    raise Undecided(f'{nm}: the size a pass goes down to is not recognised')
    if not done:
        raise Violation('no pass stops at a size: candidates are neither kept nor dropped by their loss', q.r.where)
    return f'{done} cases of taking up candidates'


def candlist(e, p):
    return find(p, lambda x: x.op == 'sorted') != [] if True else False


def taken(p):
    """number of elements of a list with one per round"""
    if p.op == 'bc':
        return p.args[2][0], None
    if p.op == 'slice':
        return seqlen(p), None
    return seqlen(p), None


def cands(q, p):
    """the sorted candidates a list is taken from"""
    Ss = {x.args[0] for x in subterms(p) if x.op == 'at' and peel(x.args[0]).op == 'sorted' and any(b.op == 'bv' for b in x.args[1].fv or [x.args[1]])} or \
        {x for x in subterms(p) if x.op == 'sorted'}
    Ss = {peel(x) for x in Ss}
    if len(Ss) != 1:
        raise Undecided('the candidates for removal are not recognised')
    return Ss.pop()


def peel(t):
    while t.op in ('rev', 'items', 'slice'):
        t = t.args[0]
    return t


def witness(g, m, P0, Ts):
    """the facts about where a search for the stopping point ends: at m, and not at the position where T is reached"""
    hyp = TRUE
    for x in subterms(tup(g, m)):
        if x.op == 'ex' and len(x.args[2]) == 1 and not any(b.op == 'bv' for b in x.fv):
            n = x.args[2][0]
            for T in Ts:
                w = sub(T, P0)
                hyp = AND(hyp, OR(atom(x), NOT(lt(w, n)), NOT(le(K0, w)), NOT(open_(x, w))))
        if x.op == 'first' and len(x.args[2]) == 1 and not any(b.op == 'bv' for b in x.fv):
            for T in Ts:
                w = sub(T, P0)
                hyp = AND(hyp, OR(NOT(lt(w, x)), NOT(le(K0, w)), NOT(open_(x, w))))
    return None, hyp


def bounds(q, g, m, P0):
    """sizes at which taking up candidates stops, read off the conditions"""
    out = []
    k = fresh('k')
    for x in subterms(tup(g, m)):
        if x.op in ('ex', 'first') and len(x.args[2]) == 1:
            for y in subterms(open_(x, k)):
                if y.op == 'lt0' and k in dict(y.args[1]):
                    co = dict(y.args[1])
                    s = co[k]
                    if abs(s) != 1:
                        continue
                    B = K(y.args[0])
                    for t, c in co.items():
                        if t is not k:
                            B = add(B, mul_(t, c))
                    # s*k + B < 0
                    w = sub(K0, B) if s == 1 else B
                    out += [add(w, P0), sub(add(w, P0), K1), add(add(w, P0), K1)]
        if x.op == 'imin':
            for a in x.args:
                out.append(add(a, P0))
        if x.op == 'imax' and q.size in x.args:
            out.append(x)
    return list(dict.fromkeys(out))


def pv(q, c):
    return proves(c) or proves(lens(abstract(q, shrink(c, q.F))))


def dec(cx, q, c, what):
    if pv(q, c):
        return
    cx.holds(benign(lens(abstract(q, shrink(c, q.F)))), what, q.r)


def losses(cx):
    """candidates in descending order of loss"""
    q = pruning(cx)
    n = 0
    for s in q.steps:
        for p in subterms(s.list):
            if p.op != 'bc' or not any(y.op == 'at' and peel(y.args[0]).op == 'sorted' for y in subterms(p.args[1])):
                continue
            j = fresh('k')
            b = open_(p, j)
            for _, x in leaves(b):
                if x.op != 'one':
                    continue
                for y in subterms(x.args[0]):
                    if y.op == 'at' and peel(y.args[0]).op == 'sorted' and j in y.args[1].fv | {y.args[1]}:
                        S = y.args[0]
                        f = lossfield(q, s, S)
                        seq, d = order(S, lambda t: fld(t, 0, f), True)
                        if d is None:
                            raise Violation(f'{name(q, s)}: candidates are not ordered by their loss', q.r.where)
                        if y.args[1] is sub(sub(seqlen(S), K1), j):
                            d = {'asc': 'desc', 'desc': 'asc'}[d]
                        elif y.args[1] is not j:
                            raise Undecided('order of the candidates not recognised')
                        if d != 'desc':
                            raise Violation(f'{name(q, s)}: the candidates whose removal loses least are kept', q.r.where)
                        formula(cx, q, s, unsort(S), f)
                        n += 1
    if not n:
        raise Undecided('candidates not recognised')
    return f'{n} ordered lists of candidates, taken from the greatest loss'


def lns(t):
    """logarithms of products as sums of logarithms"""
    for x in sorted({x for x in subterms(t) if x.op == 'f_ln'}, key=lambda x: x.id):
        c, d = TT.to_fl(x.args[0])
        if c or len(d) != 1:
            continue
        (p, k), = d.items()
        ps = TT._prod(p)
        if k != 1 or len(ps) < 2 and list(ps.values()) == [1]:
            continue
        y = KF(0.0)
        for b, e in ps.items():
            y = fadd(y, fmul(KF(float(e)), mk('f_ln', b)))
        t = LP.replace(t, x, y)
    return t


LOSSOPS = {'fl', 'fp', 'f_ln', 'i2f', 'sumf', 'sumi', 'at', 'len', 'lin', 'kf', 'k', 'sym', 'bv', 'fld', 'fix'}


def formula(cx, q, s, C, f):
    """the loss of a candidate: its share of the text times how much more likely it is than its alternative"""
    N, i, c, e = parallel(C)
    loss = lns(e.args[2][f])
    fr = {x.args[0] for x in subterms(loss) if x.op == 'i2f' and x.args[0].op == 'at' and x.args[0].args[1] is i}
    fr = {x.args[0] for x in fr}
    sums = [x for x in subterms(loss) if x.op == 'sumf' and free(x, i)]
    odd = {x.op for x in subterms(abstract(q, loss))} - LOSSOPS
    if not odd and len(fr) == 1 and not sums and not any(x.op == 'at' and x.args[0] in fr and x.args[1] is not i and not any(b.op == 'bv' for b in x.fv) for x in subterms(loss)):
        raise Violation('the loss of a candidate does not depend on how frequent its alternatives are', q.r.where)
    if odd or len(fr) != 1 or len(sums) != 1:
        raise Undecided('the loss of a candidate is not recognised')
    FR, G = fr.pop(), sums[0]
    k = fresh('k')
    body = open_(G, k)
    fi = i2f(at(FR, i))
    alt = [x for x in subterms(body) if x.op == 'f_ln' and free(x, k)]
    if len(alt) != 1:
        raise Undecided('the loss of a candidate is not recognised')
    al = [x for x in subterms(alt[0]) if x.op == 'at' and x.args[0] is FR and x.args[1] is not i]
    L = lambda x: mk('f_ln', x)
    if not al:
        raise Violation(f'the loss of a candidate does not depend on how frequent its alternatives are: {show(abstract(q, alt[0]), 8)[:200]}', q.r.where)
    want = L(fadd(fi, i2f(al[0])))
    X = fsub(want, body)
    j = fresh('q')
    own = [x for x in subterms(al[0].args[1]) if x.op == 'at' and x.args[1] is k]
    total = i2f(bsum(N, j, at(FR, j)))
    share = fdiv(fi, i2f(seqlen(q.S)))
    spec = lns(fmul(share, fsub(fsub(L(fi), L(total)), bsumf(G.args[2][0], k, fsub(want, X)))))
    if veq(loss, spec, c):
        if alt[0] in subterms(X):
            raise Violation('the frequency of an alternative after the removal is not its own plus that of the candidate: ' + show(abstract(q, alt[0]), 8)[:300], q.r.where)
        return
    cx.same(abstract(q, loss), abstract(q, spec), 'the loss of a candidate', q.r)


def lossfield(q, s, S):
    p = parallel(unsort(S))
    if p is None:
        raise Undecided('candidates not recognised')
    N, i, c, e = p
    if e.op != 'agg':
        raise Undecided('candidates not recognised')
    fl = [k for k, a in enumerate(e.args[2]) if a is not i and not isint(a)]
    if len(fl) != 1:
        raise Undecided('loss of a candidate not recognised')
    return fl[0]


def c21(cx):
    cx.ob('subset', 'every step makes the new vocabulary of tokens of the current one, each at most once, value unchanged', only_removes, cx)
    cx.ob('mark', 'every step leaves the keep marks alone', prune_mark, cx)
    cx.ob('passes', 'passes are made exactly while the vocabulary is larger than requested', passes, cx)
    cx.ob('size', 'a pass goes down to a size not below the requested one', stopping, cx)
    cx.ob('loss', 'the candidates whose removal loses most are kept', losses, cx)


# ------------------------------------------------------------------ expectation counts
def counted(q, s):
    """the vector of counts a re-estimation step takes scores from"""
    Es = {}
    for e in s.ents:
        for x in subterms(q.F.sc(e.el)):
            if x.op == 'at' and x.args[0].op in ('fix', 'cat', 'bc', 'vset') and e.j in x.args[1].fv | {x.args[1]}:
                Es.setdefault(x.args[0], set()).add(x.args[1])
    return Es


def reest(q):
    out = [s for s in q.steps if any(q.F.sc(e.el) is not q.F.sc(at(s.V, e.j)) and not veq(q.F.sc(e.el), q.F.sc(at(s.V, e.j)), e.may) for e in s.ents)]
    if not out:
        raise Violation('scores are never re-estimated', q.r.where)
    return out


def own_count(cx):
    q = pruning(cx)
    n = 0
    for s in reest(q):
        for e in s.ents:
            Es = counted(q, s)
            sc = q.F.sc(e.el)
            if not Es:
                why = murky(sc)
                if why and 'loop' not in why:
                    raise Undecided(why)
                if not free(sc, e.j):
                    raise Violation('the score of a token does not depend on the token', q.r.where)
                raise Undecided(f'the counts scores are made of are not recognised: {show(sc, 5)[:300]}')
            for V, idx in Es.items():
                if contributions_ok(q, V) is None:
                    continue
                bad = [i for i in idx if i is not e.j]
                if bad:
                    raise Violation(f'the score of token {show(e.j)} is made of the count of token {show(bad[0], 5)[:80]}', q.r.where)
                n += 1
            own = {x for x in subterms(mk('tuple2', sc, e.may)) if x.op == 'at' and x.args[0] in Es and x.args[1] is e.j}
            empty = lt(seqlen(q.S), K1)
            for g, l in leaves(sc):
                g = AND(g, s.g, e.may)
                if g is FALSE or any(x in own for x in subterms(mk('tuple2', g, l))) or proves(OR(NOT(g), empty)) or murky(abstract(q, g)) or any(x.op == 'done' for x in subterms(g)):
                    continue
                raise Violation(f'the score of a token is not made of its count when {show(abstract(q, g), 8)[:300]}', q.r.where)
    if not n:
        raise Undecided('the counts scores are made of are not recognised')
    return f'{n} scores depend on the token\'s own count only'


def contributions_ok(q, V):
    try:
        return contributions(q.r, V)
    except Undecided:
        return None


def snippets(cx):
    q = pruning(cx)
    out = []
    wholly(cx, q.r, q.S, 'expected counts')
    for s in reest(q):
        for V in counted(q, s):
            base, cs = contributions(q.r, V)
            if base.op != 'rep' or base.args[0] is not KF(0.0):
                raise Violation(f'expected counts do not start at zero: {show(abstract(q, base), 5)[:100]}', q.r.where)
            if not veq(seqlen(base), seqlen(s.V)):
                raise Violation(f'there are {show(abstract(q, seqlen(base)), 5)[:100]} counts for {show(abstract(q, seqlen(s.V)), 5)[:100]} tokens', q.r.where)
            ch = {x for c in cs for t in c.terms() for x in subterms(t) if x.op == 'chunks' and x.args[0].op == 'at' and x.args[0].args[0] is q.S}
            plainly = {x for c in cs for t in c.terms() for x in subterms(t) if x.op == 'lat'}
            sizes = {x.args[1] for x in ch}
            if any(not t.op == 'k' for t in sizes) or len(sizes) > 1:
                raise Undecided('the length of snippets is not recognised')

            def spec(js):
                sm = at(q.S, js[0]) if js else None
                if not ch:
                    return [seqlen(q.S)], None, mk('nodes', mk('lat', sm), s.M, q.dropout)
                c_ = mk('chunks', sm, list(sizes)[0]) if js else None
                if len(js) < 2:
                    return [seqlen(q.S), None if not js else seqlen(c_)], None, None
                return [seqlen(q.S), seqlen(c_)], None, mk('nodes', mk('lat', at(c_, js[1])), s.M, q.dropout)
            for l in plainly:
                for b in {x.args[0] for x in subterms(l) if x.op == 'slice'}:
                    if b.op == 'at' and b.args[0] is q.S:
                        raise Violation(f'a snippet is cut out as {show(l.args[0], 6)[:200]}: parts of a sample may be left out', q.r.where)
            for c in cs:
                for x in subterms(c.weight):
                    if x.op == 'dedup' and unsort(x.args[0]) is q.S:
                        raise Violation('samples that occur several times are counted once', q.r.where)
                    if x.op == 'lat' and find(x.args[0], lambda y: y.op in ('s_trim', 's_trim_start', 's_trim_end', 'replace') and y.args[0].op == 'at' and y.args[0].args[0] is q.S):
                        raise Violation(f'what is segmented is not the sample: {show(x.args[0], 6)[:200]}', q.r.where)
            md = {x.args[1] for c in cs for x in subterms(c.weight) if x.op == 'nodes'}
            for m in md:
                if m is not s.M:
                    raise Violation(f'expected counts are taken with {show(abstract(q, m), 5)[:100]}, not with the current model', q.r.where)
            out.append(expect(cx, q.r, cs, 'vec', spec, 'expected counts', plain=lambda t: abstract(q, t)))
    if not out:
        raise Undecided('no expected counts found')
    return '; '.join(out)


def c33(cx):
    cx.ob('snippets', 'every snippet of every sample is segmented once with the current model and the configured dropout', snippets, cx)
    import model as MO
    cx.ob('populate', 'populating a lattice without dropout inserts every vocabulary token at every place it occurs, with its own id, length and score', MO.populated, cx)
    cx.ob('own', 'each surviving token is scored from its own count', own_count, cx)


# ------------------------------------------------------------------ scores from counts
from fractions import Fraction as Fr


def kept_count(q, s, V, i):
    """(token i stays, its count), the counts being V"""
    c = at(V, i)
    half = KF(0.5)
    low = TT.flt(c, half)
    return OR(NOT(low), atom_(q.F.kp(at(s.V, i)))), ite(low, half, c)


def maxes(t):
    """maxima with a constant by cases, also in sums"""
    def cases(t):
        seen = set()
        while True:
            fs = [x for x in subterms(t) if x.op in ('fmax', 'fmin') and x not in seen and any(y.op == 'kf' for y in x.args)]
            if not fs:
                return t
            x = min(fs, key=lambda y: y.id)
            seen.add(x)
            k, y = x.args if x.args[0].op == 'kf' else x.args[::-1]
            if y.op == 'kf':
                continue
            low = TT.flt(y, k)
            lo, hi = (k, y) if x.op == 'fmax' else (y, k)
            t = ite(low, deeprestrict(LP.replace(t, x, lo), low), deeprestrict(LP.replace(t, x, hi), NOT(low)))

    def f(x):
        k = fresh('k')
        return bsumf(x.args[2][0], k, cases(open_(x, k)))
    return LP.mapop(t, 'sumf', f)


def one_vector(q, s):
    Vs = [V for V in counted(q, s) if V.op == 'fix' and contributions_ok(q, V) is not None]
    if len(Vs) != 1:
        raise Undecided('the counts scores are made of are not recognised')
    return Vs[0]


def survivors(cx):
    q = pruning(cx)
    n = 0
    for s in reest(q):
        V = one_vector(q, s)
        i = fresh('i')
        may = FALSE
        for e in s.ents:
            if not veq(e.n, seqlen(s.V), s.g):
                raise Undecided(f'the tokens that stay are not recognised: {show(e.n, 4)[:200]}')
            if not veq(e.may, e.must):
                raise Undecided('the tokens that stay are not recognised')
            may = OR(may, subst(e.may, {e.j: i}))
        want = kept_count(q, s, V, i)[0]
        pc = AND(s.g, lt(i, seqlen(s.V)))
        for c, what in ((OR(NOT(pc), NOT(want), may), 'a token that is expected often enough, or marked keep, is dropped'), (OR(NOT(pc), want, NOT(may)), 'a token that is neither expected often enough nor marked keep stays')):
            if proves(c):
                continue
            c = abstract(q, shrink(c, q.F))
            cx.holds(c, what, q.r)
        n += 1
    return f'{n} steps: a token stays exactly if its count is at least one half or it is marked keep'


def recurrences(t):
    """[(first, X, bound)]: the number of ones it takes for X to reach the bound"""
    out = []
    for x in subterms(t):
        if x.op != 'first':
            continue
        k = fresh('k')
        b = open_(x, k)
        ats = list(TT.atoms(b))
        if len(ats) != 1 or x.args[2][0].op != 'inf':
            raise Undecided('a loop in the estimate of scores is not recognised')
        a = ats[0]
        if a.op != 'flt':
            raise Undecided('a loop in the estimate of scores is not recognised')
        if a.args[1].op == 'kf' and b is NOT(atom(a)):
            y, T = a.args
        elif a.args[0].op == 'kf' and b is atom(a):
            T, y = a.args
        else:
            raise Undecided('a loop in the estimate of scores is not recognised')
        X = fsub(y, i2f(k))
        if k in X.fv:
            raise Undecided('a loop in the estimate of scores is not recognised')
        out.append((x, X, float(T.args[0])))
    return out


def series(t, rs):
    """a sum of terms ln(y), y^-m and of reciprocals, y = X + rounds + c, per X: {X: {kind: coefficient}}"""
    c0, d = TT.to_fl(t)
    out = {X: {} for _, X, _ in rs}
    out[None] = {'const': c0} if c0 else {}

    def place(y):
        for f, X, _ in rs:
            z = fsub(fsub(y, X), i2f(f))
            if z.op == 'kf':
                return X, float(z.args[0])
        return None

    def put(X, kind, k):
        out[X][kind] = out[X].get(kind, 0) + k
    for p, k in d.items():
        if p.op == 'f_ln':
            w = place(p.args[0])
            if w is None:
                raise Undecided(f'part of the score is not recognised: {show(p, 5)[:200]}')
            put(w[0], ('ln', w[1]), k)
        elif p.op in ('f_log2', 'f_log10', 'f_ln_1p', 'f_sqrt', 'f_exp') and place(p.args[0]):
            raise Violation(f'{p.op[2:]} is taken where the digamma function has the natural logarithm', '')
        elif p.op == 'sumf':
            h = fresh('k')
            b = open_(p, h)
            hit = [(f, X) for f, X, _ in rs if p.args[2][0] is f]
            c1, d1 = TT.to_fl(b)
            if not hit or c1 or len(d1) != 1:
                raise Undecided(f'part of the score is not recognised: {show(p, 5)[:200]}')
            (pp, kk), = d1.items()
            ps = TT._prod(pp)
            if list(ps.values()) != [-1]:
                raise Undecided(f'part of the score is not recognised: {show(p, 5)[:200]}')
            z = fsub(fsub(list(ps)[0], hit[0][1]), i2f(h))
            if z.op != 'kf':
                raise Undecided(f'part of the score is not recognised: {show(p, 5)[:200]}')
            put(hit[0][1], ('sum', float(z.args[0])), k * kk)
        elif p.op in ('fmin', 'fmax') and any(a.op == 'kf' for a in p.args) and any(place(x.args[0]) for x in subterms(p) if x.op == 'f_ln'):
            raise Violation(f'the score is limited: {show(p, 3)[:200]}', '')
        else:
            ps = TT._prod(p)
            w = place(list(ps)[0]) if len(ps) == 1 else None
            if w is None:
                raise Undecided(f'part of the score is not recognised: {show(p, 5)[:200]}')
            put(w[0], ('pow', w[1], list(ps.values())[0]), k)
    return out


def bernoulli(n, x):
    from math import comb
    B = [Fr(1)]
    for m in range(1, n + 1):
        B.append(-sum(comb(m + 1, k) * B[k] for k in range(m)) / (m + 1))
    return sum(comb(n, k) * B[k] * x ** (n - k) for k in range(n + 1))


def psi_error(f, T):
    """what is wrong with f as a digamma function, None if it is one to within 1e-6"""
    kinds = {k[0] for k in f if k != 'const'}
    cs = {k[1] for k in f if k != 'const' and k[0] in ('ln', 'pow')}
    if f.get('const'):
        return f'it has a constant part {float(f["const"])}'
    sums = {k[1]: v for k, v in f.items() if k[0] == 'sum'}
    if sums != {0.0: -1}:
        return f'one is not taken off for each step: {[(a, float(b)) for a, b in sums.items()]} reciprocals'
    if len(cs) != 1:
        return f'its terms are about different points {sorted(cs)}'
    c = Fr(cs.pop())
    if f.get(('ln', float(c))) != 1:
        return f'its logarithm has the factor {float(f.get(("ln", float(c)), 0))}'
    y = Fr(T) + c
    if y < 1:
        return f'its expansion is used from {float(y)} on'
    err = Fr(0)
    worst = None
    co = {-k[2]: v for k, v in f.items() if k[0] == 'pow'}
    for m in sorted(set(co) | set(range(1, 9))):
        if m < 1:
            return f'it grows with power {-m}'
        want = -(-1) ** m * bernoulli(m, -c) / m
        d = abs(co.get(m, Fr(0)) - want) / y ** m
        err += d
        if worst is None or d > worst[0]:
            worst = (d, m, co.get(m, Fr(0)), want)
    if err > Fr(1, 10 ** 6):
        return f'the coefficient of power -{worst[1]} is {float(worst[2])} instead of {float(worst[3])}, off by {float(worst[0]):.1e}'
    # the terms left out: largest where the expansion is first used
    from math import log
    for d in range(4):
        x = T + d / 4
        got = log(x + float(c)) + sum(float(v) / (x + float(c)) ** m for m, v in co.items())
        w, z = 0.0, x
        while z < 60:
            w, z = w - 1 / z, z + 1
        w += log(z) - 1 / (2 * z) - 1 / (12 * z ** 2) + 1 / (120 * z ** 4)
        if abs(got - w) > 1e-6 * max(1, abs(w)):
            return f'its expansion is used from {x} on, where it is off by {abs(got - w):.1e}'
    return None


DIGAMMA = {'first', 'sumf', 'fl', 'fp', 'f_ln', 'i2f', 'kf', 'k', 'inf', 'at', 'fix', 'flt', 'fmax', 'sym', 'bv', 'fld', 'len', 'sumi', 'lin', 'ite', 'or', 'and', 'not', 'atom', 'true', 'false'}


def newscores(cx):
    q = pruning(cx)
    n = 0
    for s in reest(q):
        V = one_vector(q, s)
        N = seqlen(s.V)
        for e in s.ents:
            stays, cnt = kept_count(q, s, V, e.j)
            h = fresh('h')
            sk, ck = kept_count(q, s, V, h)
            total = maxes(bsumf(N, h, ite(sk, ck, KF(0.0))))
            sc = shrink(q.F.sc(e.el), q.F)
            pc = AND(e.may, lt(e.j, e.n), s.g)
            for g, x in leaves(sc, pc):
                pcg = AND(pc, g)
                if pcg is FALSE:
                    continue
                rs = recurrences(x)
                Xs = []
                for _, X, _ in rs:
                    if not any(X is y for y in Xs):
                        Xs.append(X)
                own = [X for X in Xs if X.op == 'kf' or free(X, e.j)]
                tot = [X for X in Xs if X not in own]
                if len(own) == 2:
                    tot = [X for X in own if X.op == 'kf']
                    own = [X for X in own if X not in tot]
                if len(Xs) != 2 or len(own) != 1 or len(tot) != 1:
                    why = murky(x)
                    if why and 'loop' not in why:
                        raise Undecided(why)
                    if not rs and not {y.op for y in subterms(abstract(q, x))} - DIGAMMA:
                        raise Violation(f'the score is not a difference of digamma functions: {show(abstract(q, x), 7)[:300]}', q.r.where)
                    if len(Xs) == 1 and len(own) + len(tot) == 1:
                        raise Violation(f'the score depends on {"the count of the token" if own else "the total"} only', q.r.where)
                    raise Undecided(f'the score is not recognised: {show(abstract(q, x), 6)[:300]}')
                mt = maxes(tot[0])
                if not veq(mt, total, pcg):
                    cx.same(abstract(q, mt), abstract(q, total), 'the total that counts are compared with', q.r)
                half = KF(0.5)
                low = TT.flt(at(V, e.j), half)
                for a, c in ((low, half), (NOT(low), at(V, e.j))):
                    if AND(pcg, a) is not FALSE:
                        z = deeprestrict(LP.replace(own[0], TT.fmax(half, at(V, e.j)), c), AND(pcg, a))
                        if not veq(z, c, AND(pcg, a)):
                            cx.same(abstract(q, z), abstract(q, c), 'the count a score is made of', q.r)
                f = series(x, rs)
                T = {X: t for _, X, t in rs}
                a, b = f[own[0]], f[tot[0]]
                if f[None]:
                    raise Violation(f'the score has a constant part {float(f[None]["const"])}', q.r.where)
                bad = psi_error(a, T[own[0]])
                if bad:
                    raise Violation(f'the function of the count is not the digamma function: {bad}', q.r.where)
                bad = psi_error({k: -v for k, v in b.items()}, T[tot[0]])
                if bad:
                    raise Violation(f'the function of the total is not the negated digamma function: {bad}', q.r.where)
                n += 1
    if not n:
        raise Undecided('no scores found')
    return f'{n} cases: digamma of the count less digamma of the total'


def emrounds(cx):
    r = cx.run(cx.method(PRUNER, 'prune', crate=CLI), 'TRAIN')
    for l in r.loops.values():
        if len(l.stack) == 1 and l.n is not None and any(loc[0] == root('P', 1) for loc in l.vars) and veq(l.n, fld(r.p(0), 0, cx.fnamed(PRUNER, 'em_subiters'))):
            for key, g, st, _ in l.exits:
                if g is not FALSE and key[0] == 'brk':
                    raise Violation(f'the rounds of estimation end early, when {show(g, 6)[:300]}', r.where)
    q = pruning(cx)
    want = fld(q.me, 0, cx.fnamed(PRUNER, 'em_subiters'))
    n = 0
    rs = reest(q)
    for s in rs:
        l = s.l
        if l is q.outer:
            raise Violation('scores are estimated once, not the configured number of rounds', q.r.where)
        if l.stack[-1:] and l.stack[-1][0] != q.outer.lid or l.n is None:
            raise Undecided('the rounds of estimation are not recognised')
        if any(g is not FALSE for _, g, st, _ in l.exits):
            # returning an error ends everything
            for key, g, st, _ in l.exits:
                if g is not FALSE and key[0] != 'ret':
                    raise Undecided('the rounds of estimation may end early')
        if not veq(l.n, want):
            cx.same(l.n, want, 'the number of rounds of estimation', q.r)
        left = [g for g, v in leaves(s.d['next'], l.endpc) if v is s.d['phi'] and AND(g, l.endpc) is not FALSE]
        if left:
            cx.holds(abstract(q, shrink(NOT(AND(l.endpc, left[0])), q.F)), 'a round of estimation leaves the model as it is', q.r)
        n += 1
    if len({s.l.lid for s in rs}) != 1:
        raise Undecided('the rounds of estimation are not recognised')
    fin = rs[0].d['final']
    if all(s in rs for s in q.steps):
        if find(rs[0].d['init'], lambda x: x.op == 'm_from' and q.od['phi'] in subterms(x)):
            raise Violation('tokens are pruned before their scores are estimated', q.r.where)
        raise Undecided('the pruning step is not recognised')
    for s in q.steps:
        if s not in rs:
            if s.M is q.od['phi']:
                raise Violation('tokens are pruned before their scores are estimated', q.r.where)
            if s.M is not fin:
                raise Undecided('what is pruned is not recognised')
    return f'{n} estimation loops run the configured number of rounds before each pruning step'


def c35(cx):
    cx.ob('survivors', 'an estimation round keeps exactly the tokens expected at least half a time or marked keep', survivors, cx)
    cx.ob('scores', 'the new score is the digamma function of the count less that of the total', newscores, cx)
    cx.ob('rounds', 'the configured number of rounds precedes each pruning step', emrounds, cx)


def prune_terminates(cx):
    q = pruning(cx)
    out = []
    for l in q.r.loops.values():
        if l.n is not None:
            continue
        if l is q.outer:
            V, Vn = seqlen(q.F.v(q.od['phi'])), seqlen(shrunk(q, q.od['next']))
            E = shrink(l.endpc, q.F)
            c = OR(NOT(E), lt(Vn, V))
            if proves(c):
                out.append('the vocabulary shrinks')
                continue
            c2 = lens(abstract(q, c))
            if not proves(c2):
                cx.holds(benign(c2), 'a pass may leave the vocabulary as large as it was, and the next one is made all the same', q.r)
            out.append('the vocabulary shrinks')
            continue
        out.append(fprogress(cx, q.r, l))
    return '; '.join(out)


def fprogress(cx, r, l):
    """a float that moves by a fixed amount towards a fixed bound"""
    phis = {d['phi']: d['next'] for d in l.vars.values()}
    for x in subterms(l.endpc):
        if x.op != 'flt':
            continue
        E = AND(l.endpc, NOT(atom(x))), AND(l.endpc, atom(x))
        for sgn, e in ((1, E[0]), (-1, E[1])):
            if e is not FALSE:
                continue
            gap = fsub(x.args[0], x.args[1])
            nx = subst(gap, {**phis, l.j: add(l.j, K1)})
            st = fsub(nx, gap)
            if st.op == 'kf' and float(st.args[0]) * sgn > 0:
                return f'{show(x, 3)[:80]} comes closer to failing by {show(st)} each time'
            if st.op == 'kf' and float(st.args[0]) * sgn <= 0 and (AND(l.endpc, *[NOT(atom(y)) if y is not x else TRUE for y in ()]) is not FALSE) and veq(l.endpc, AND(l.pc, atom(x) if sgn == 1 else NOT(atom(x)))):
                raise Violation(f'the loop never ends: {show(x, 4)[:100]} moves away from failing by {show(st)} each time', f'{l.where[0]} ({l.where[1]}:{l.where[2]})')
    return progress(cx, r, l, TRUE, {}, [])


def c19(cx):
    cx.ob('prune-keep', 're-estimation and pruning passes keep every token marked keep', prune_keep, cx)
    cx.ob('prune-mark', 're-estimation and pruning passes leave the marks of survivors alone', prune_mark, cx)


def c25(cx):
    cx.ob('prune', 'each pass of pruning removes a token or ends the loop', prune_terminates, cx)
    import tokenizer as TK
    cx.ob('split', 'splitting at special tokens moves forward or ends', lambda: TK.progress(cx, fieldsof(cx)))
