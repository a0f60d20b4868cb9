"""Filtering, pruning, merging, generation and mining (C19–C25, C31, C33), decided on the value-flow summaries."""
from lib import *
import loops as LP
from accum import contributions, chunky, fresh, unitems
from model import names, req

LESS, EQUAL, GREATER = TT.LESS if hasattr(TT, 'LESS') else None, None, None
import models as MD
LESS, EQUAL, GREATER = MD.LESS, MD.EQUAL, MD.GREATER


# ------------------------------------------------------------------ helpers
def order(t, key, isf):
    """(sequence, 'asc' | 'desc' | None) of a sorted sequence, by key"""
    flip = 0
    while True:
        if t.op == 'rev':
            flip ^= 1
            t = t.args[0]
        elif t.op == 'items':
            t = t.args[0]
        else:
            break
    if t.op != 'sorted':
        return t, None
    lam = t.args[1]
    if lam.op != 'lam2':
        raise Undecided('ordering not recognised')
    x, y = sym('ordx'), sym('ordy')
    c = open_(lam, x, y)
    lt_ = flt if isf else lt
    kx, ky = key(x), key(y)
    a, b = AND(lt_(kx, ky), NOT(lt_(ky, kx))), AND(lt_(ky, kx), NOT(lt_(kx, ky)))
    r1, r2 = restrict(c, a), restrict(c, b)
    # comparisons of values whose order is not known to the analysis
    for u, v, w1, w2 in ((kx, ky, LESS, GREATER), (ky, kx, GREATER, LESS)):
        for z in {z for t in (r1, r2) for z in subterms(t) if z.op == 'cmp' and z.args[0] is u and z.args[1] is v}:
            r1, r2 = LP.replace(r1, z, w1), LP.replace(r2, z, w2)
    if r1 is LESS and r2 is GREATER:
        d = 0
    elif r1 is GREATER and r2 is LESS:
        d = 1
    else:
        def other(l):
            # a comparison of something that is neither the key nor contains it nor is made from it
            return l in (LESS, EQUAL, GREATER) or l.op == 'cmp' and not any(
                u is k or k in subterms(u) or u in subterms(k) for u in l.args[:2] for k in (kx, ky))
        if any(murky(z) for z in (r1, r2)) or any(not other(l) for z in (r1, r2) for _, l in leaves(z)):
            raise Undecided('ordering not recognised: ' + show(c, 8)[:200])
        return t.args[0], None
    return t.args[0], ('asc', 'desc')[d ^ flip]


def unsort(t):
    """the elements of t, in whatever order"""
    while t.op in ('sorted', 'rev', 'items'):
        t = t.args[0]
    return t


def suffix(nx, ph):
    """[(condition, pushed elements)] of a list that is only pushed to, or None"""
    out = []
    for g, l in leaves(nx):
        if l is ph:
            out.append((g, []))
            continue
        if l.op != 'cat' or l.args[0] is not ph:
            return None
        alts = [(g, [])]
        for p in l.args[1:]:
            nxt = []
            for g2, q in leaves(p):
                for g1, els in alts:
                    gg = AND(g1, g2)
                    if gg is FALSE:
                        continue
                    if q is EMPTY:
                        nxt.append((gg, els))
                    elif q.op == 'one':
                        nxt.append((gg, els + [q.args[0]]))
                    else:
                        return None
            alts = nxt
        out += alts
    return out


class L:
    """a list built element by element: n rounds, round j pushing what `pushes` says; `state` are the other
    variables of the loop as {phi: (init, next)}"""


def listloop(t):
    t = unitems(t)
    q = L()
    if t.op == 'bc':
        q.n = t.args[2][0]
        q.j = fresh('j')
        body = open_(t, q.j)
        q.phi, q.init, q.state = fresh('list'), EMPTY, {}
        q.pushes = suffix(cat(q.phi, body), q.phi)
    elif t.op == 'fix':
        q.n, inits = t.args[2][0], t.args[2][1:]
        ph = [sym('acc', 'phi', TT.K(0).id, fresh('p').id) for _ in inits]
        q.j = fresh('j')
        nx = open_(t, *ph, q.j).args[2]
        q.phi, q.init = ph[0], inits[0]
        q.state = {p: (i, x) for p, i, x in list(zip(ph, inits, nx))[1:]}
        q.pushes = suffix(nx[0], ph[0])
    elif t.op == 'slice' or t is EMPTY:
        q.n = seqlen(t)
        q.j = fresh('j')
        q.phi, q.init, q.state = fresh('list'), EMPTY, {}
        q.pushes = suffix(cat(q.phi, one(at(t, q.j))), q.phi)
    else:
        raise Undecided(f'list not recognised: {show(t, 4)[:200]}')
    if q.pushes is None:
        raise Undecided(f'list is not built by adding elements: {show(t, 4)[:200]}')
    return q


def given(pushes):
    """condition under which something is pushed"""
    return OR(*[g for g, els in pushes if els]) if any(els for g, els in pushes) else FALSE


def elem(cx, r, q):
    """the element of the source that round j looks at, and the source"""


def modelout(cx, r, pi=1):
    """[(guard, value)] of the model a training step leaves behind in its parameter"""
    m = r.mem(pi)
    if m is None:
        raise Undecided(f'{r.path}: the model it changes is not recognised')
    return leaves(m)


# ------------------------------------------------------------------ filter
FILTER = 'tokengeex::filter::VocabularyFilter'


def filt(cx):
    q = L()
    F = fieldsof(cx)
    r = cx.run(cx.method(FILTER, 'filter', crate=CLI), 'TRAIN')
    cx.clear(r)
    me, M = r.p(0), r.p(1)
    q.F, q.r, q.V = F, r, F.v(M)
    q.size = fld(me, 0, cx.fidx(FILTER, lambda s: s == 'usize'))
    q.minopt = fld(me, 0, cx.fidx(FILTER, lambda s: 'Option<f64>' in s))
    q.force = atom(fld(me, 0, cx.fidx(FILTER, lambda s: s == 'bool')))
    q.hasmin = is_some(q.minopt)
    q.min = fld(q.minopt, 1, 0)
    q.small = le(seqlen(q.V), q.size)
    q.same, q.outs = FALSE, []
    for g, v in modelout(cx, r):
        if v is M:
            q.same = OR(q.same, g)
        elif v.op == 'm_from':
            q.outs.append((g, v.args[0]))
        else:
            raise Undecided(f'{r.path}: resulting model not recognised: {show(v, 4)[:200]}')
    q.loops = []
    q.outs = [(AND(g, g2), x) for g, X in q.outs for g2, x in leaves(X, g)]
    for g, X in q.outs:
        X = unsort(X)
        if X is q.V:
            # every token is put back
            q.same = OR(q.same, g)
            continue
        if X is EMPTY:
            if proves(OR(NOT(g), lt(seqlen(q.V), TT.K(1)))):
                continue
            if murky(g):
                raise Undecided(f'{r.path}: the model is emptied under a condition that is not recognised')
            raise Violation(f'the whole vocabulary is dropped when {show(g, 6)[:200]}', r.where)
        if X.op == 'dedup' and len(X.args) == 2:
            x, y = fresh('x'), fresh('y')
            b = X.args[1]
            c = open_(b, x, y) if b.op == 'lam2' else None
            if c is not None and not any(a.op == 'eq' and AND(c, NOT(a)) is FALSE and all(z in (F.val(x), F.val(y)) for z in a.args) for a in atoms(c)):
                raise Violation(f'tokens are dropped as repetitions although their values differ: {show(c, 5)[:200]}', r.where)
        if X.op == 'slice' and unsort(X.args[0]).op in ('fix', 'bc') and not proves(OR(NOT(g), AND(eq(X.args[1], K0), eq(X.args[2], seqlen(X.args[0]))))):
            raise Violation(f'survivors are cut off by position: of {show(X.args[0], 3)[:80]} only {show(X.args[1], 5)[:80]}..{show(X.args[2], 5)[:80]} stay', r.where)
        l = listloop(X)
        l.g = g
        els = [e for _, es in l.pushes for e in es]
        if any(len(es) > 1 for _, es in l.pushes):
            raise Violation('a token is put into the filtered vocabulary more than once', r.where)
        if not els:
            raise Violation('the filtered vocabulary is empty', r.where)
        # what is pushed is the element looked at
        src = {x.args[0] for e in els for x in subterms(e) if x.op == 'at' and l.j in x.fv}
        cand = [s for s in src if unsort(s) is q.V]
        if len(cand) != 1:
            raise Undecided(f'{r.path}: the tokens it goes through are not recognised')
        l.src = cand[0]
        l.el = None
        idx = {x.args[1] for e in els for x in subterms(e) if x.op == 'at' and x.args[0] is l.src}
        if len(idx) != 1:
            raise Undecided(f'{r.path}: the tokens it goes through are not recognised')
        l.idx = idx.pop()
        l.el = at(l.src, l.idx)
        l.els = els
        q.loops.append(l)
    if not q.loops and q.same is FALSE:
        raise Undecided(f'{r.path}: nothing is filtered')
    return q


def sources(q, l):
    """the loop visits every token, once; in which order"""
    n = seqlen(q.V)
    if not veq(l.n, n, l.g):
        if murky(l.n, n):
            raise Undecided(murky(l.n, n))
        raise Violation(f'filtering goes through {show(l.n, 6)[:200]} of {show(n)} tokens; the others are dropped', q.r.where)
    if l.idx is l.j:
        rev = False
    elif l.idx is sub(sub(n, K1), l.j):
        rev = True
    else:
        raise Undecided('order of the tokens not recognised')
    S, d = order(l.src, q.F.sc, True)
    if S is not q.V and unsort(S) is not q.V:
        raise Undecided('the sequence filtered is not the vocabulary')
    return {None: None, 'asc': 'desc' if rev else 'asc', 'desc': 'asc' if rev else 'desc'}[d]


def stepwise(t, p):
    """max(0, p - k) by the cases p = 0, 1 .. k"""
    def f(x):
        for k in (1, 2, 3):
            if x is imax(K0, sub(p, K(k))):
                out = sub(p, K(k))
                for i in range(k - 1, -1, -1):
                    out = ite(lt(p, K(i + 1)), sub(p, K(i)), out)
                return out
        return x
    return LP.mapop(t, 'imax', f)


def removed(q, l):
    """the keep condition of round j with the counters expressed by r, the number of tokens removed so far"""
    push = given(l.pushes)
    for p in l.state:
        push = stepwise(push, p)
    r_ = sym('acc', 'removed', 0)
    TT.declare_nonneg(r_)
    m = {seqlen(l.phi): sub(l.j, r_)}
    l.rel = TRUE
    for p, (i, nx) in l.state.items():
        nx = stepwise(nx, p)
        for s in (1, -1):
            # next = phi + s*(removed in this round)
            want = ite(push, p, add(p, K(s)))
            if veq(nx, want, AND(lt(l.j, l.n), l.g)) or veq(nx, want, l.g):
                m[p] = add(i, r_) if s == 1 else sub(i, r_)
                break
            want = ite(push, add(p, K(s)), p)
            if veq(nx, want, AND(lt(l.j, l.n), l.g)):
                kept = sub(l.j, r_)
                m[p] = add(i, kept) if s == 1 else sub(i, kept)
                break
        else:
            # a counter of something else: all that is known is how it compares with the removals
            for s in (1, -1):
                d = sub(nx, p) if s == 1 else sub(p, nx)
                ds = leaves(d)
                steps = {x.args[0] if x.op == 'k' else -1 for _, x in ds}
                if all(0 <= x <= 3 for x in steps):
                    D = OR(*[g for g, x in ds if x is not K0]) if any(x is not K0 for _, x in ds) else FALSE
                    c = sym('acc', 'counter', p.id)
                    TT.declare_nonneg(c)
                    l.rel = AND(l.rel, le(c, mul(l.j, K(max(steps)))), OR(TRUE if not proves(OR(push, D)) else FALSE, le(r_, c)),
                                OR(TRUE if max(steps) > 1 or not proves(OR(NOT(D), NOT(push))) else FALSE, le(c, r_)))
                    m[p] = add(i, c) if s == 1 else sub(i, c)
                    break
    k = push
    for a, b in m.items():
        k = LP.replace(k, a, b)
    left = [x for x in subterms(k) if x in l.state or x is l.phi]
    if left:
        raise Undecided('a counter of the filter is not recognised')
    return k, r_


def c20(cx):
    try:
        q = filt(cx)
    except Violation as v:
        msg = str(v)

        def raise_():
            raise Violation(msg, v.construct)
        cx.ob('result', 'the filtered vocabulary consists of the surviving tokens', raise_)
        return
    except Undecided as u:
        msg = str(u)

        def und():
            raise Undecided(msg)
        cx.ob('result', 'the filtered vocabulary consists of the surviving tokens', und)
        return
    r, F = q.r, q.F

    def keepcond(l):
        k, rm = removed(q, l)
        R = sub(seqlen(q.V), q.size)
        spec = OR(le(R, rm), AND(atom_(F.kp(l.el)), NOT(q.force)), NOT(q.hasmin), NOT(flt(F.sc(l.el), q.min)))
        pc = AND(l.g, NOT(q.small), le(rm, R), lt(l.j, l.n), le(rm, l.j), l.rel)
        return k, spec, pc, rm, R

    def unchanged():
        allowed = OR(q.small, NOT(q.hasmin))
        # a token like any other: what holds of none holds of it
        i = fresh('i')
        none = [OR(x, NOT(TT.open_(x, i))) for x in subterms(q.same) if x.op == 'ex' and veq(x.args[2][0], seqlen(q.V))]
        tok = at(q.V, i)
        stays = OR(AND(atom_(F.kp(tok)), NOT(q.force)), NOT(flt(F.sc(tok), q.min)))
        c = OR(NOT(q.same), allowed, *([NOT(AND(*none)), stays] if none else []))
        if proves(c):
            return 'the vocabulary is left alone only when it is small enough or there is no minimum score'
        cx.holds(c, 'the vocabulary is left as it is although tokens should go', r)
    cx.ob('applies', 'the vocabulary is filtered unless it is at or below the requested size', unchanged)

    def elements():
        for l in q.loops:
            for e in l.els:
                cx.same(e, l.el, 'a token that survives filtering', r, l.g)
        return 'every survivor is the token itself'
    cx.ob('survivors', 'filtering changes no surviving token', elements)

    def everyone():
        for l in q.loops:
            sources(q, l)
        return 'every token is looked at once'
    cx.ob('all', 'filtering looks at every token exactly once', everyone)

    def lowest():
        for l in q.loops:
            d = sources(q, l)
            k, spec, pc, rm, R = keepcond(l)
            # when the number of removals cannot matter, neither does the order
            dep = rm in subterms(k)
            if dep and d != 'asc':
                raise Violation('the tokens are not gone through from the lowest score up, so that a token with a higher score is removed before one with a lower one' +
                                (' (the order is not by score)' if d is None else ''), r.where)
        return 'tokens are removed in ascending order of score'
    cx.ob('lowest', 'lowest-scoring tokens are removed first', lowest)

    def bound():
        for l in q.loops:
            k, spec, pc, rm, R = keepcond(l)
            c = OR(NOT(AND(pc, le(R, rm))), k)
            if not proves(c):
                cx.holds(c, 'a token is removed although only the requested number is left', r, (k,))
        return 'no token is removed once |vocabulary| - size are'
    cx.ob('size', 'filtering never leaves fewer tokens than requested', bound)

    def low():
        for l in q.loops:
            k, spec, pc, rm, R = keepcond(l)
            c = OR(NOT(pc), NOT(NOT(flt(F.sc(l.el), q.min))), NOT(q.hasmin), k)
            if not proves(c):
                cx.holds(c, 'a token scoring at least the minimum is removed', r, (k,))
            c = OR(NOT(pc), q.hasmin, k)
            if not proves(c):
                cx.holds(c, 'a token is removed although there is no minimum score', r, (k,))
        return 'only tokens scoring below the minimum are removed'
    cx.ob('minimum', 'only tokens scoring below the minimum are removed', low)

    def all_():
        for l in q.loops:
            k, spec, pc, rm, R = keepcond(l)
            c = OR(NOT(pc), spec, NOT(k))
            if not proves(c):
                cx.holds(c, 'an eligible token is left in', r, (k,))
        return 'every eligible token goes while the size allows it'
    cx.ob('eligible', 'every eligible token the size bound allows is removed', all_)


def atom_(t):
    return t if t in (TRUE, FALSE) or t.op == 'ite' else atom(t)


def c19(cx):
    def filter_keep():
        q = filt(cx)
        for l in q.loops:
            sources(q, l)
            k, rm = removed(q, l)
            c = OR(NOT(AND(l.g, lt(l.j, l.n))), q.force, NOT(atom_(q.F.kp(l.el))), k)
            if not proves(c):
                cx.holds(c, 'a token marked keep is filtered out', q.r, (k,))
        return 'a token marked keep is pushed in every round unless forced'
    cx.ob('filter-keep', 'filtering keeps every token marked keep, unless forced', filter_keep)

    def filter_mark():
        q = filt(cx)
        for l in q.loops:
            for e in l.els:
                cx.same(q.F.kp(e), q.F.kp(l.el), 'the keep mark of a token that survives filtering', q.r, l.g)
        return 'marks unchanged'
    cx.ob('filter-mark', 'filtering leaves the mark of every survivor', filter_mark)


# ------------------------------------------------------------------ accumulation against a specification
def within(t, S):
    """a sequence made of samples, or of the parts of a sample"""
    while True:
        if t is S:
            return True
        if t.op in ('at', 'chunks', 'slice', 'items', 'rev') and t.args:
            t = t.args[0]
        elif t.op == 'finditer':
            t = t.args[1]
        elif t.op == 'fld' and t.args[0].op == 'm_encode':
            t = t.args[0].args[1]
        elif t.op == 'phi' or not t.args:
            return False
        else:
            return False


def wholly(cx, r, S, what):
    """no loop over samples, or over the parts of a sample, is left before its end"""
    n = 0
    for l in r.loops.values():
        if l.n is None:
            continue
        ns = [x for x in subterms(l.n) if x.op == 'len' and within(x.args[0], S)]
        if not ns or not all(x.op in ('lin', 'len', 'k', 'imax') or x in set(subterms(ns[0])) for x in subterms(l.n)):
            continue
        if not (l.par or any(p for _, p in l.stack)):
            continue
        n += 1
        for key, g, st, val in l.exits:
            if key[0] not in ('brk', 'cont') and not (key[0] == 'ret' and val is UNIT) or len(key) > 2 and key[1] in ('it', 'itl', 'first', 'tfe', 'tf', 'srch', 'coll'):
                continue
            c = AND(g, l.pc, lt(l.j, sub(l.n, K1)))
            if c is FALSE or proves(NOT(c)) or any(x.op in ('undef', 'unk', 'app') for x in subterms(g)):
                continue
            raise Violation(f'{what}: the rest of {show(ns[0].args[0], 4)[:120]} is skipped when {show(g, 8)[:300]}', f'{l.where[0]} ({l.where[1]}:{l.where[2]})')
    return n


def accum(cx, r, t, what):
    """contributions of an accumulated term, with its base"""
    base, cs = contributions(r, t)
    return base, cs


def expect(cx, r, cs, kind, spec, what, extra=TRUE, plain=lambda t: t):
    """exactly one contribution, equal to spec(binders) -> (bounds, key, weight)"""
    cs = [c for c in cs if c.cond is not FALSE]
    if not cs:
        raise Violation(f'{what}: nothing is counted', r.where)
    if len(cs) > 1:
        a = cs[0]
        for b in cs[1:]:
            if len(b.binders) == len(a.binders) and b.kind == a.kind:
                m = dict(zip([j for j, _ in b.binders], [j for j, _ in a.binders]))
                d = b.subst(m)
                if d.key is a.key and AND(d.cond, a.cond) is not FALSE:
                    raise Violation(f'{what}: counted twice: {a.show()[:300]} and again {d.show()[:300]}', r.where)
        raise Undecided(f'{what}: {len(cs)} contributions')
    c = cs[0]
    c = type(c)([(j, plain(n)) for j, n in c.binders], plain(c.cond), c.kind, plain(c.key) if c.key is not None else None, plain(c.weight))
    spec0 = spec

    def spec(js):
        ns, k, w = spec0(js)
        return [plain(n) for n in ns], plain(k) if k is not None else None, plain(w) if w is not None else None
    why = next((murky(t) for t in c.terms() if murky(t)), None)
    if c.kind != kind:
        raise Undecided(f'{what}: accumulated differently ({c.kind})')
    js = [j for j, _ in c.binders]
    ns, key, weight = spec(js)
    if chunky([c]):
        why = None if not why else why
    if len(ns) != len(js):
        if why:
            raise Undecided(f'{what}: {why}')
        full = spec(js + [fresh('pad') for _ in range(3)])[0]
        if len(js) < len(full) and all(veq(n, m) for (_, n), m in zip(c.binders, full)):
            raise Violation(f'{what}: not all of {show(full[len(js)], 6)[:200]} are counted: {c.show()[:400]}', r.where)
        if chunky([c]):
            raise Violation(f'{what}: what is counted depends on how the samples are split into chunks: {c.show()[:500]}', r.where)
        raise Undecided(f'{what}: {c.show()[:400]}')
    rng = extra
    for (j, n), m in zip(c.binders, ns):
        if not veq(n, m, rng) and not proves(OR(NOT(rng), AND(le(n, m), le(m, n)))):
            if why:
                raise Undecided(f'{what}: {why}')
            raise Violation(f'{what}: goes over {show(n, 8)[:300]} instead of {show(m, 8)[:300]}', r.where)
        rng = AND(rng, lt(j, n))
    miss = AND(rng, NOT(c.cond))
    if miss is not FALSE and not proves(NOT(miss)):
        if why:
            raise Undecided(f'{what}: {why}')
        raise Violation(f'{what}: left out when {show(miss, 10)[:400]}', r.where)
    for got, exp, nm in ((c.key, key, 'what is counted'), (c.weight, weight, 'the amount')):
        if got is exp or exp is None and got is None:
            continue
        if exp is None or got is None or not veq(got, exp, rng):
            if why:
                raise Undecided(f'{what}: {why}')
            raise Violation(f'{what}: {nm} is {show(got, 10)[:300] if got is not None else None}, required {show(exp, 10)[:300] if exp is not None else None}', r.where)
    return c.show()[:400]


# ------------------------------------------------------------------ mining
MINER = 'tokengeex::mine::IdiomMiner'


PIECES = ('s_lines', 's_split', 's_trim', 's_trim_start', 's_trim_end', 'split', 'lines', 'slice', 'chars')


def c31(cx):
    def run():
        r = cx.run(cx.method(MINER, 'mine', crate=CLI), 'TRAIN')
        cx.clear(r)
        return r

    def tops(r):
        out = []
        for g, v in leaves(r.ret):
            v = unitems(v)
            if v is EMPTY:
                want = fld(r.p(0), 0, cx.fidx(MINER, lambda s: s == 'usize'))
                if proves(OR(NOT(g), lt(seqlen(r.p(1)), TT.K(1)), lt(want, TT.K(1)))):
                    continue
                if murky(g) or find(g, lambda x: x.op == 'done'):
                    raise Undecided('nothing is mined under a condition that is not recognised')
                raise Violation(f'nothing is mined when {show(g, 6)[:200]}', r.where)
            if v.op == 'sorted':
                E, d = order(v, lambda p: fld(p, 0, 1), False)
                if d != 'desc':
                    raise Violation('idioms are not returned in order of descending count', r.where)
                v = unsort(v)
            l = listloop(v)
            # the j-th from the end
            for x in {x for _, es in l.pushes for e in es for x in subterms(e) if x.op == 'at'}:
                if x.args[1] is not l.j and x.args[1] is sub(sub(seqlen(x.args[0]), l.j), K1):
                    y = mk('at', mk('rev', x.args[0]), l.j)
                    l.pushes = [(LP.replace(g, x, y), [LP.replace(e, x, y) for e in es]) for g, es in l.pushes]
            src = {x for e in [e for _, es in l.pushes for e in es] for x in subterms(e) if x.op == 'at' and x.args[1] is l.j}
            if len(src) != 1:
                raise Undecided(f'{r.path}: result not recognised: {show(v, 6)[:200]}')
            l.el = src.pop()
            l.g = g
            out.append(l)
        return out

    def counted():
        r = run()
        me, S = r.p(0), r.p(1)
        pat = fld(me, 0, cx.fidx(MINER, lambda s: 'Regex' in s))
        ms = {}
        for l in tops(r):
            E = unsort(l.el.args[0])
            for _, x in leaves(E):
                if x.op == 'slice' and x.args[0].op == 'entries':
                    raise Violation('idioms are cut off before they are sorted by count', r.where)
            if E.op == 'bc' and E.args[2][0].op == 'len' and E.args[2][0].args[0].op == 'entries':
                k = fresh('k')
                body = open_(E, k)
                for g, x in leaves(body):
                    if x is EMPTY and 'loop' in (murky(g) or 'loop') and not proves(NOT(AND(g, lt(k, E.args[2][0])))):
                        raise Violation(f'idioms found are left out: when {show(g, 6)[:200]}', r.where)
            if E.op != 'entries':
                raise Undecided(f'{r.path}: the counts are not recognised: {show(E, 4)[:200]}')
            ms[E.args[0]] = 1
        wholly(cx, r, S, 'mining')
        for m in ms:
            base, cs = accum(cx, r, m, 'mining')
            cx.must(base.op == 'mempty', 'the counts do not start empty', r)

            def spec(js):
                f = mk('finditer', pat, at(S, js[0])) if js else None
                return ([seqlen(S), seqlen(f)], at(f, js[1]) if len(js) > 1 else None, K1)
            for c in cs:
                for x in subterms(c.key):
                    if x.op == 'finditer' and find(x.args[1], lambda y: y.op in PIECES):
                        raise Violation(f'matches are looked for only within pieces of a sample: {show(x.args[1], 5)[:200]}', r.where)
            d = expect(cx, r, cs, 'map', spec, 'mining')
        return d
    cx.ob('counts', 'every match of the pattern in every sample is counted once', counted)

    def result():
        r = run()
        me = r.p(0)
        num = fld(me, 0, cx.fidx(MINER, lambda s: s == 'usize'))
        for l in tops(r):
            E, d = order(l.el.args[0], lambda p: fld(p, 0, 1), False)
            if find(l.el.args[0], lambda x: x.op == 'partsorted') and find(l.el.args[0], lambda x: x.op == 'sorted'):
                raise Undecided('how the most frequent idioms are selected is not recognised')
            if d != 'desc':
                raise Violation('idioms are not returned in order of descending count', r.where)
            for g, els in l.pushes:
                pc = AND(l.g, g, lt(l.j, l.n))
                if pc is FALSE:
                    continue
                if len(els) != 1:
                    if len(els) == 0:
                        raise Violation(f'an idiom is left out when {show(pc, 8)[:300]}', r.where)
                    raise Violation('an idiom is returned more than once', r.where)
                cx.same(els[0], tup(fld(l.el, 0, 0), fld(l.el, 0, 1)), 'an idiom returned', r, pc)
            n = seqlen(E)
            for c, w in ((le(l.n, num), 'more idioms than requested are returned'), (OR(le(num, l.n), le(n, l.n)), 'idioms are left out although fewer than requested are returned'),
                         (le(l.n, n), 'more idioms are returned than were found')):
                c = LP.replace(OR(NOT(l.g), c), n, sym('found'))
                if not proves(c):
                    cx.holds(c, w, r)
        return 'the first min(found, requested) entries in descending order of count'
    cx.ob('result', 'the most frequent idioms are returned, most frequent first, each with its count', result)


# ------------------------------------------------------------------ loops and counters
def vlocs(r, field, pi):
    """loop variables that hold the vocabulary of the model parameter: [(loop, var)]"""
    out = []
    for l in r.loops.values():
        for loc, d in l.vars.items():
            if loc[0] == root('P', pi) and len(loc[1]) == 1 and loc[1][0][0] == 'f' and loc[1][0][2] == field:
                out.append((l, d))
            elif loc[0] == root('P', pi) and len(loc[1]) == 0:
                out.append((l, dict(d, phi=fld(d['phi'], 0, field), next=fld(d['next'], 0, field), init=fld(d['init'], 0, field),
                                    final=fld(d['final'], 0, field) if d['final'] is not None else None)))
    return out


def delta(a, b, pc):
    """a - b on the paths of pc as [(guard, int)], or None"""
    d = sub(a, b)
    out = []
    for g, x in leaves(d):
        if AND(g, pc) is FALSE:
            continue
        if x.op != 'k':
            return None
        out.append((g, x.args[0]))
    return out


def relations(r, l, lenphi, leninit, lenfinal, dlen, pc):
    """{term: term} that expresses the counters of loop l by the number of elements of its list"""
    m = {}
    for loc, d in l.vars.items():
        if d['phi'] is lenphi or not isint(d['phi']):
            continue
        dd = delta(d['next'], d['phi'], pc)
        if not dd:
            continue
        s = None
        for sg in (1, -1):
            if all(AND(pc, g1, g2) is FALSE or x == sg * y for g1, x in dd for g2, y in dlen):
                s = sg
                break
        if s is None or all(x == 0 for _, x in dd):
            continue
        e = lambda n: add(d['init'], sub(n, leninit)) if s == 1 else sub(d['init'], sub(n, leninit))
        m[d['phi']] = e(lenphi)
        if d['final'] is not None and d['final'].op == 'fix':
            m[d['final']] = e(lenfinal)
    return m


def isint(t):
    return all(x.op not in TT.NOTINT for _, x in leaves(t))


def rewrite(t, ms, rounds=3):
    for _ in range(rounds):
        u = t
        for a, b in ms.items():
            u = LP.replace(u, a, b)
        if u is t:
            return t
        t = u
    return t


def lens(t, keep=()):
    """lengths of loop results become plain numbers"""
    m = {}
    for x in subterms(t):
        if x.op == 'len' and murky(x) == 'a loop is not in closed form' or x.op == 'len' and murky(x) and 'loop' in murky(x):
            m[x] = x
    out = t
    for x in sorted(m, key=lambda y: -y.id):
        s = sym('num', x.id)
        TT.declare_nonneg(s)
        out = LP.replace(out, x, s)
    return out


def decide(cx, r, goal, what):
    if proves(goal):
        return
    g = lens(goal)
    if proves(g):
        return
    cx.holds(benign(g), what, r)


# ------------------------------------------------------------------ merging
MERGER = 'tokengeex::merge::ModelVocabularyMerger'


def cutshort(v, f):
    """v: what fewer repetitions of the loop that results in f leave behind"""
    return f is not None and v.op == f.op == 'fix' and v.args[0] == f.args[0] and v.args[1] is f.args[1] and v.args[2][1:] == f.args[2][1:]


def maybe(y):
    """a repetition of the loop need not add anything"""
    d = delta(seqlen(y.d['next']), seqlen(y.phi), y.l.endpc)
    return bool(d) and len({k for _, k in d}) > 1


def merging(cx):
    q = L()
    F = fieldsof(cx)
    r = cx.run(cx.method(MERGER, 'merge', crate=CLI), 'TRAIN')
    cx.clear(r)
    q.r, q.F = r, F
    q.me, q.M, q.S = r.p(0), r.p(1), r.p(2)
    f = lambda n: fld(q.me, 0, cx.fnamed(MERGER, n))
    q.allow = fld(q.me, 0, cx.fidx(MERGER, lambda s: 'Regex' in s))
    q.num, q.max, q.scale = f('num_merges'), f('max_token_length'), f('scale_factor')
    q.V0 = F.v(q.M)
    q.loops = []
    for l, d in vlocs(r, F.vocab, 1):
        if d['next'] is d['phi']:
            continue
        x = L()
        x.l, x.d = l, d
        x.phi, x.init, x.final = d['phi'], d['init'], d['final']
        q.loops.append(x)
    if not q.loops:
        raise Undecided(f'{r.path}: no tokens are added in a loop')
    phis = {x.phi for x in q.loops}
    for x in q.loops:
        x.pushes = []
    for x in q.loops:
        # finals of inner loops and what they leave behind after leaving early continue the vocabulary
        inner = {y.final for y in q.loops if y is not x and y.final is not None} | {y.phi for y in q.loops if y is not x}
        for g, v in leaves(x.d['next'], x.l.endpc):
            if v in inner or any(cutshort(v, y.final) and maybe(y) for y in q.loops if y is not x):
                continue
            if v.op == 'fld' and v.args[0].op == 'm_from' and v.args[2] == F.vocab:
                v = v.args[0].args[0]
            left = [y for y in q.loops if y is not x and v.op == 'cat' and v.args[0] is y.phi]
            if left:
                # added on the way out of an inner loop
                y = left[0]
                gg = g
                for z in subterms(g):
                    if z.op == 'done' and AND(g, atom(z)) is FALSE:
                        gg = AND(gg, z.args[1])
                s = suffix(v, y.phi)
                if s is not None:
                    base_ = AND(y.l.pc, lt(y.l.j, y.l.n) if y.l.n is not None else TRUE, gg)
                    y.pushes += [(AND(base_, g2), els) for g2, els in s if els and AND(base_, g2) is not FALSE]
                    continue
            s = suffix(v, x.phi)
            if s is None:
                for y in inner:
                    s = s or suffix(v, y)
                if s is None:
                    if v.op == 'cat' and v.args[0] in (x.phi, *inner):
                        raise Undecided(f'{r.path}: what is added to the vocabulary is not recognised: {show(v, 6)[:200]}')
                    why = murky(v)
                    if why and 'loop' not in why:
                        raise Undecided(why)
                    if v.op == 'cat' or v.op == 'bc' or v.op == 'vset' or v.op == 'slice' or v.op in ('sorted', 'rev'):
                        raise Violation(f'the vocabulary is not only appended to: {show(v, 8)[:400]}', r.where)
                    raise Undecided(f'{r.path}: the vocabulary becomes {show(v, 6)[:200]}')
            x.pushes += [(AND(x.l.endpc, g, g2), els) for g2, els in s if els and AND(x.l.endpc, g, g2) is not FALSE]
    q.phis = phis
    reps = {}
    for i, x in enumerate(q.loops):
        reps[x.phi] = sym('vocabulary', i)
    for l in r.loops.values():
        for loc, d in l.vars.items():
            if loc[0] == root('P', 1) and d['phi'] not in reps:
                reps[d['phi']] = sym('index', len(reps))
            elif d['init'].op == 'mempty' and any(z.op == 'mset' and z.args[2] is UNIT for z in subterms(d['next'])):
                reps[d['phi']] = sym('seen', len(reps))

    def plain(t):
        for x in sorted({z for z in subterms(t) if z.op == 'entries'}, key=lambda z: -z.id):
            t = LP.replace(t, x, sym('counted', x.id))
        for a, b in reps.items():
            t = LP.replace(t, a, b)
        m = {z for z in subterms(t) if z.op == 'sym' and z.args and z.args[0] == 'j'}
        for z in m:
            s = sym('round', z.id)
            TT.declare_nonneg(s)
            t = LP.replace(t, z, s)
        return t
    q.plain = plain
    q.main = [x for x in q.loops if x.pushes]
    if not q.main:
        raise Violation('nothing is ever merged', r.where)
    q.rel = {}
    for x in q.main:
        pc = x.l.endpc
        dl = delta(seqlen(x.d['next']), seqlen(x.phi), pc)
        if dl:
            q.rel.update(relations(r, x.l, seqlen(x.phi), seqlen(x.init), seqlen(x.final) if x.final is not None else None, dl, pc))
    # vocabularies only grow from one loop into the next
    q.grow = TRUE
    for x in q.main:
        q.grow = AND(q.grow, le(seqlen(x.init), seqlen(x.phi)))
        dl = delta(seqlen(x.d['next']), seqlen(x.phi), x.l.endpc)
        if dl and {k for _, k in dl} == {0, 1}:
            # at most one token per repetition
            q.grow = AND(q.grow, le(seqlen(x.phi), add(seqlen(x.init), x.l.j)))
        if x.final is not None:
            q.grow = AND(q.grow, le(seqlen(x.init), seqlen(x.final)))
    for x in q.loops:
        if x.init is q.V0:
            q.grow = AND(q.grow, le(seqlen(q.V0), seqlen(x.phi)))
    return q


def c22(cx):
    def each():
        q = merging(cx)
        out = []
        for x in q.main:
            base = x.init if x.init in q.phis else x.phi
            for pc, els in x.pushes:
                for k, e in enumerate(els):
                    out.append((q, x, pc, k, e, base))
        return out

    def pairof(q, x, e):
        """the pair of ids a merged token stems from, and the value it should have"""
        v = q.F.val(e)
        norm = lambda t: LP.replace(t, x.phi, x.init) if x.init in q.phis else t
        v = norm(v)
        ps = v.args if v.op == 'cat' else (v,)
        V = x.init if x.init in q.phis else x.phi
        alts = [[]]
        for p in ps:
            nxt = []
            for g, p_ in leaves(p):
                if p_.op == 'fld' and p_.args[2] == q.F.value and p_.args[0].op == 'at' and p_.args[0].args[0] in (V, q.V0):
                    nxt += [a + [p_.args[0].args[1]] for a in alts]
                else:
                    raise Undecided(f'{q.r.path}: the value of a merged token is not recognised: {show(v, 6)[:200]}')
            alts = nxt
        good = [a for a in alts if len(a) == 2 and all(i.op == 'fld' for i in a) and a[0].args[0] is a[1].args[0] and (a[0].args[2], a[1].args[2]) == (0, 1)]
        bad = [a for a in alts if a not in good]
        if bad and all(i.op == 'fld' for a in alts for i in a):
            raise Violation('a merged token is not the concatenation of the two tokens of a pair, but of ' + ' and '.join(show(i, 8)[-40:] for i in bad[0]), q.r.where)
        if bad:
            raise Undecided(f'{q.r.path}: the value of a merged token is not recognised')
        return norm, V, good[0]

    def append():
        q = merging(cx)
        return f'{len(q.loops)} loops, {len(q.main)} of them append'
    cx.ob('append', 'existing tokens and their ids stay as they are', append)

    def value():
        n = 0
        for q, x, pc, k, e, base in each():
            norm, V, ids = pairof(q, x, e)
            a, b = ids
            A, B = at(V, a), at(V, b)
            sc = norm(q.F.sc(e))
            want = fmul_(fadd_(q.F.sc(A), q.F.sc(B)), q.scale)
            if not any(veq(sc, w, pc) for w in want):
                cx.same(q.plain(sc), q.plain(want[0]), 'the score of a merged token', q.r, q.plain(pc))
            n += 1
        return f'{n} appending sites'
    cx.ob('token', 'a merged token is the concatenation of the two tokens of a pair, scored from both', value)

    def pairs():
        for q, x, pc, k, e, base in each():
            norm, V, ids = pairof(q, x, e)
            en = ids[0]
            while en.op == 'fld':
                en = en.args[0]
            if en.op != 'at' or unsort(en.args[0]).op != 'entries':
                raise Undecided(f'{q.r.path}: pairs not recognised: {show(ids[0], 12)[:400]}')
            if ids[0] is not fld(fld(en, 0, 0), 0, 0):
                raise Undecided(f'{q.r.path}: pairs not recognised: {show(ids[0], 12)[:400]} {show(en, 5)[:100]}')
            j = en.args[1]
            S, d = order(en.args[0], lambda p: fld(p, 0, 1), False)
            if d != 'desc' or j.op != 'sym':
                if j.op != 'sym':
                    raise Undecided('the order in which pairs are considered is not recognised')
                raise Violation('pairs are not considered in order of descending frequency', q.r.where)
            if not veq(x.l.n, seqlen(unsort(S))):
                if x.l.n is None or murky(x.l.n) and x.l.n.op != 'len':
                    raise Undecided('the pairs considered are not recognised')
            wholly(cx, q.r, q.S, 'pairs')
            bs, cs = accum(cx, q.r, unsort(S).args[0], 'pairs')
            cx.must(bs.op == 'mempty', 'pair counts do not start empty', q.r)
            model = [c for c in q.r.ev('call') if c.get('name') == 'm_encode']

            def spec(js):
                en_ = [z for c in cs for z in subterms(c.key) if z.op == 'm_encode']
                if len(set(z.args[0] for z in en_)) != 1:
                    raise Undecided('pairs: the model that encodes is not recognised')
                mod = en_[0].args[0]
                cur = x.init if x.init in q.phis else x.phi
                if fld(mod, 0, q.F.vocab) is not cur and fld(mod, 0, q.F.vocab) is not x.phi:
                    raise Violation(f'pairs are counted with {show(mod, 5)[:200]}, not with the current model', q.r.where)
                ids_ = fld(mk('m_encode', mod, at(q.S, js[0]), KF(0.0)), 0, 0) if js else None
                got = {z.args[2] for z in en_}
                if got != {KF(0.0)}:
                    raise Violation('pairs are counted with dropout', q.r.where)
                idv = [z for c in cs for z in subterms(c.key) if z.op == 'fld' and z.args[0].op == 'm_encode']
                ids_ = idv[0]
                if ids_.args[0].args[1] is not at(q.S, js[0]):
                    raise Undecided('pairs: sample not recognised')
                n_ = imax(K0, sub(seqlen(ids_), K1))
                if len(js) < 2:
                    return [seqlen(q.S), n_], None, K1
                i = js[1]
                # the second binder may count from 1
                return [seqlen(q.S), n_], tup(at(ids_, i), at(ids_, add(i, K1))), K1
            det = expect(cx, q.r, cs, 'map', spec, 'pairs of adjacent tokens', plain=q.plain)
        return det
    cx.ob('pairs', 'every pair of adjacent tokens of every sample is counted once; frequent pairs first', pairs)

    def new():
        for q, x, pc, k, e, base in each():
            v = q.F.val(e)
            t2i = None
            hs = [z for z in subterms(pc) if z.op == 'has']
            good = [z for z in hs if AND(pc, atom(z)) is FALSE and vsame(z.args[1], v, x, q)]
            cur = [z for z in good if z.args[0].op == 'sym' or z.args[0].op == 'fld']
            if not good:
                if any(murky(z.args[0]) for z in hs if vsame(z.args[1], v, x, q)) or murky(v):
                    pass
                raise Violation(f'a merged token is added without checking that the vocabulary does not have it yet', q.r.where)
            locs = {d['phi']: loc for loc, d in x.l.vars.items()}
            if not any(z.args[0] in locs or any(z.args[0] is p or z.args[0] in subterms(p) for p in locs) for z in good):
                raise Violation('a merged token is looked up in an outdated index, so that a round can add it twice', q.r.where)
        return 'appending implies that the current token index lacks the value'
    cx.ob('new', 'a merged token is new to the vocabulary', new)

    def length():
        for q, x, pc, k, e, base in each():
            n = lambda t: LP.replace(t, x.phi, x.init) if x.init in q.phis else t
            g = OR(NOT(rewrite(n(pc), q.rel)), le(seqlen(n(q.F.val(e))), q.max))
            decide(cx, q.r, q.plain(g), 'a merged token longer than the maximum is added')
        return 'length <= maximum'
    cx.ob('length', 'a merged token is no longer than the maximum', length)

    def keep():
        for q, x, pc, k, e, base in each():
            kp = fld(e, 0, q.F.keep)
            norm, V, ids = pairof(q, x, e)
            z = norm(kp)
            if z is not FALSE:
                own = [x_ for x_ in subterms(z) if x_.op == 'fld' and x_.args[2] == q.F.keep and x_.args[0] in [at(V, i) for i in ids]]
                y = z
                for x_ in own:
                    y = LP.replace(y, x_, fresh('keep'))
                if own and not murky(y):
                    raise Violation('a merged token takes over the keep mark of a token it is made of', q.r.where)
            cx.same(kp, FALSE, 'keep mark of a merged token', q.r, pc)
        return 'keep is false at every append'
    cx.ob('keep', 'a merged token is not marked keep', keep)

    def allowed():
        for q, x, pc, k, e, base in each():
            n = lambda t: LP.replace(t, x.phi, x.init) if x.init in q.phis else t
            v = n(q.F.val(e))
            p = n(pc)
            hits_ = [z for z in subterms(p) if z.op == 'rematch']
            good = [z for z in hits_ if z.args[0] is q.allow and (z.args[1] is v or z.args[1] is mk('lossy', v)) and AND(p, NOT(atom(z))) is FALSE]
            asked = [z for z in hits_ if z.args[0] is q.allow and (z.args[1] is v or z.args[1] is mk('lossy', v))]
            rest = p
            for z in asked:
                rest = AND(rest, NOT(atom(z)))
            if not good and asked:
                if rest is FALSE:
                    continue
                if not any(y.op == 'app' for y in subterms(rest)):
                    raise Violation(f'a merged token is added although the allow pattern rejects it or is not asked: {show(rest, 5)[:300]}', q.r.where)
            if not good:
                odd = [z for z in hits_ if z.args[0] is q.allow and AND(p, NOT(atom(z))) is FALSE]
                if odd:
                    raise Violation(f'the allow pattern is asked about {show(odd[0].args[1], 6)[:200]}, not about the merged token', q.r.where)
                if any(murky(z) for z in hits_) or 'app' in {z.op for z in subterms(p)}:
                    raise Undecided('the allow pattern test is not recognised')
                raise Violation('a merged token is added without being accepted by the allow pattern', q.r.where)
        return 'appending implies that the allow pattern matches the value'
    cx.ob('allow', 'a merged token is accepted by the allow pattern', allowed)

    def budget():
        for q, x, pc, k, e, base in each():
            lim = add(seqlen(q.V0), q.num)
            g = OR(NOT(rewrite(pc, q.rel)), NOT(q.grow), lt(add(seqlen(x.phi), K(k)), lim))
            if proves(g):
                continue
            # by induction over the rounds: the comparisons the code makes, as far as they are invariants
            V, Vn = seqlen(x.phi), seqlen(x.d['next'])
            end, start = AND(rewrite(x.l.endpc, q.rel), q.grow), AND(rewrite(x.l.pc, q.rel), q.grow)
            cands = {lt(V, lim), le(V, lim)}
            for z in subterms(AND(end, rewrite(pc, q.rel))):
                if z.op == 'lt0' and V in subterms(z):
                    cands |= {atom(z), NOT(atom(z))}
            cands = [c for c in cands if proves(OR(NOT(start), LP.replace(c, V, seqlen(x.init))))]
            while True:
                hyp = AND(end, *cands)
                keep = [c for c in cands if proves(OR(NOT(hyp), LP.replace(c, V, Vn)))]
                if len(keep) == len(cands):
                    break
                cands = keep
            if proves(OR(NOT(AND(rewrite(pc, q.rel), q.grow, *cands)), lt(add(V, K(k)), lim))):
                continue
            decide(cx, q.r, q.plain(g), 'more tokens than requested are added')
        # an unsigned subtraction that wraps around makes any bound computed from it meaningless
        for q, x, pc, k, e, base in each():
            V, V0 = seqlen(x.phi), seqlen(q.V0)
            for ev in q.r.ev('sub'):
                if not any(t is V or t is V0 or t is q.num for t in subterms(tup(ev['a'], ev['b']))):
                    continue
                first = OR(NOT(ev['pc']), le(ev['b'], ev['a']))
                for y in q.loops * 2:
                    first = LP.replace(first, y.phi, y.init)
                if proves(rewrite(first, q.rel)) or murky(first) or set(t.op for t in first.fv) & {'bv'}:
                    continue
                raise Violation(f'in the first round the subtraction {show(ev["a"], 5)[:80]} - ({show(ev["b"], 5)[:80]}) wraps around unless {show(first, 6)[:200]}', f'{ev["where"][0]} ({ev["where"][1]}:{ev["where"][2]})')
        return '|vocabulary| < initial size + requested merges at every append'
    cx.ob('budget', 'at most the requested number of tokens is appended', budget)


def vsame(a, v, x, q):
    n = lambda t: LP.replace(t, x.phi, x.init) if x.init in q.phis else t
    return n(a) is n(v)


def fadd_(a, b):
    return [fadd(a, b), fadd(b, a)]


def fmul_(xs, s):
    return [y for x in xs for y in (fmul(x, s), fmul(s, x))]


# ------------------------------------------------------------------ termination
def progress(cx, r, l, facts_, rel, lensyms, plain=lambda t: t):
    """every repetition of l moves one of the measures towards its bound"""
    E = AND(l.endpc, facts_)
    E = rewrite(E, rel)
    # a bounded count of rounds
    vs = {d['phi'] for d in l.vars.values()} | {l.j}
    for x in subterms(E):
        if x.op == 'lt0' and l.j in dict(x.args[1]):
            co = dict(x.args[1])
            for e, s in ((AND(E, NOT(atom(x))), 1), (AND(E, atom(x)), -1)):
                if e is FALSE and co[l.j] * s > 0 and not any(v in t.fv or v is t for t in co if t is not l.j for v in vs):
                    return f'rounds are bounded: {show(x, 4)[:80]}'
    tried = []
    cand = list(lensyms)
    for loc, d in l.vars.items():
        if all(x.op in TT.INT_OPS for t in (d['init'], d['next']) for _, x in leaves(t) if x is not d['phi']):
            cand.append((d['phi'], d['next']))
    for a, b in cand:
        b = rewrite(b, rel)
        down = OR(NOT(E), lt(b, a))
        if TT.nonneg(a) and (proves(down) or proves(lens(down))):
            return f'{show(a)[:60]} decreases'
        up = OR(NOT(E), lt(a, b))
        if proves(up) or proves(lens(up)):
            # bounded by something the loop does not change
            vs = {d['phi'] for d in l.vars.values()}
            bounds = set()
            for x in subterms(E):
                if x.op == 'lt0':
                    co = dict(x.args[1])
                    if a in co and abs(co[a]) == 1 and not any(murky(t) for t in co if t is not a):
                        s = co[a]
                        B = TT.K(x.args[0])
                        for t, k in co.items():
                            if t is not a:
                                B = add(B, mul_(t, k))
                        bounds.add(sub(K0, B) if s == 1 else B)
            for B in bounds:
                if proves(OR(NOT(E), le(a, add(B, K1)))):
                    return f'{show(a)[:60]} increases up to {show(B)[:60]}'
        tried.append((a, b))
    g = OR(NOT(E), *[OR(lt(b, a), lt(a, b)) for a, b in tried]) if tried else NOT(E)
    cx.holds(benign(plain(lens(g))), 'a repetition of the loop may leave everything as it was', r)
    raise Undecided(f'{l.where[0]}: progress of the loop is not recognised')


def mul_(t, k):
    r = K0
    for _ in range(abs(k)):
        r = add(r, t) if k > 0 else sub(r, t)
    return r


def benign(t):
    """left-over tests of how an inner loop ended do not say anything about progress"""
    m = {}
    for x in subterms(t):
        if x.op == 'done':
            m[x] = sym('ended', x.id)
        elif x.op == 'ex' and murky(x):
            m[x] = sym('some', x.id)
    out = t
    for a, b in m.items():
        out = LP.replace(out, a, b)
    return out


def drift(q, l):
    """the rounds go on because of a counter that an inner loop moves on a
    path on which it adds nothing"""
    def anystate(t):
        for y in (l, x.l):
            for d_ in y.vars.values():
                if d_['phi'].op == 'sym':
                    t = LP.replace(t, d_['phi'], sym('state', d_['phi'].id))
        return t
    for x in q.main:
        if x.final is None or x.l is l or not x.l.stack or x.l.stack[-1][0] != l.lid:
            continue
        E = LP.replace(rewrite(AND(l.endpc, q.grow), q.rel), x.final, x.init)
        # where the inner loop runs to its end
        for z in find(E, lambda t: t.op == 'done'):
            E = restrict(E, atom(z))
        for loc, d in x.l.vars.items():
            f, p = d['final'], d['phi']
            if f is None or f in q.rel or p is x.phi or f not in subterms(E) or not isint(p):
                continue
            c0 = d['init']
            for z in find(c0, lambda t: t.op == 'len'):
                c0 = LP.replace(c0, z, K0)
            if any(z['phi'] in subterms(c0) for z in l.vars.values()):
                continue  # carried from round to round: not a count of this round
            c = sym('counter', p.id)
            why = murky(q.plain(benign(LP.replace(E, f, c))))
            if why or E is FALSE:
                continue
            for g, n in leaves(d['next'], x.l.endpc):
                if n is p:
                    continue
                still = [AND(h, g) for h, k in delta(seqlen(x.d['next']), seqlen(x.phi), g) or () if k == 0]
                if not any(h is not FALSE and not murky(q.plain(anystate(h))) for h in still):
                    continue
                raise Violation(f'{x.l.where[0] if isinstance(x.l.where, tuple) else x.l.where}: a round that adds nothing moves the counter by which the loop goes on', q.r.where)


def c25(cx):
    def merge():
        q = merging(cx)
        out = []
        for l in q.r.loops.values():
            if l.n is not None:
                continue
            x = [x for x in q.loops if x.l is l]
            ls = [(seqlen(x[0].phi), seqlen(x[0].d['next']))] if x else []
            try:
                out.append(progress(cx, q.r, l, q.grow, q.rel, ls, q.plain))
            except Undecided:
                drift(q, l)
                raise
        return f'{len(out)} open-ended loops: ' + '; '.join(out)
    cx.ob('merge', 'each round of merging adds a token or ends the loop', merge)


def subst_all(t, m):
    tmp = {p: sym('acc', 'tmp', p.id) for p in m}
    for p in m:
        t = LP.replace(t, p, tmp[p])
    for p, x in m.items():
        t = LP.replace(t, tmp[p], x)
    return t
