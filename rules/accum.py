"""Accumulation: what a counter, a map of counts or a vector of sums has added up, as a list of contributions.

A contribution is (binders, condition, kind, key, weight): for every value of the binders for which the condition
holds, `weight` is added at `key` of a map ('map'), at index `key` of a vector ('idx'), or the whole vector `weight`
is added ('vec').  Chunks of a slice are replaced by the slice itself, so that the list does not depend on how the
work is split."""
from lib import *
import loops as LP
from loops import mbuild

N = [0]


def fresh(tag):
    N[0] += 1
    s = sym('acc', tag, N[0])
    TT.declare_nonneg(s)
    return s


class C:
    def __init__(self, binders, cond, kind, key, weight):
        self.binders, self.cond, self.kind, self.key, self.weight = binders, cond, kind, key, weight

    def wrap(self, j, n):
        return C([(j, n)] + self.binders, self.cond, self.kind, self.key, self.weight)

    def when(self, g):
        return C(self.binders, AND(g, self.cond), self.kind, self.key, self.weight)

    def subst(self, m):
        return C([(m.get(j, j), subst(n, m)) for j, n in self.binders], subst(self.cond, m), self.kind,
                 subst(self.key, m) if self.key is not None else None, subst(self.weight, m))

    def repl(self, a, b):
        f = lambda t: LP.replace(t, a, b)
        return C([(j, f(n)) for j, n in self.binders], f(self.cond), self.kind, f(self.key) if self.key is not None else None, f(self.weight))

    def terms(self):
        return [n for _, n in self.binders] + [self.cond] + ([self.key] if self.key is not None else []) + [self.weight]

    def show(self):
        return ' '.join(f'for {show(j)}<{show(n, 5)}' for j, n in self.binders) + (f' if {show(self.cond, 6)}' if self.cond is not TRUE else '') + \
            f' {self.kind} {show(self.key, 8) if self.key is not None else ""} += {show(self.weight, 8)}'


class Acc:
    def __init__(self, r):
        self.r = r
        self.phis = {}
        self.rounds = {}

    def bad(self, msg):
        raise Violation(msg, self.r.where)

    def get(self, t, pc=TRUE):
        """(base, contributions) of an accumulated value"""
        b, cs = self.go(t, pc)
        return b, [self.flatten(c) for c in cs]

    # ------------------------------------------------------------------
    def go(self, t, pc=TRUE):
        t = unitems(t)
        if t.op in ('mempty', 'sym', 'fld', 'at', 'mget') or t is K0 or t is KF(0.0):
            return t, []
        if t.op == 'rep' and (t.args[0] is K0 or t.args[0] is KF(0.0)):
            return t, []
        if t.op == 'ite':
            base, cs = None, []
            for g, l in joined([(g, l) for g, l in leaves(t) if AND(pc, g) is not FALSE]):
                b, c = self.go(l, AND(pc, g))
                if base is not None and b is not base:
                    raise Undecided('accumulation starts from different values')
                base = b
                cs += [x.when(g) for x in c]
            # a contribution made in both cases is made
            return base, merge_cases(cs)
        if t.op == 'mset':
            return self.mset(t, pc)
        if t.op == 'marg':
            b, cs = self.go(t.args[0], pc)
            return b, cs + [C([], TRUE, 'vec', None, t.args[1])]
        if t.op == 'vset':
            v, i, x = t.args
            b, cs = self.go(v, pc)
            w = self.minus(x, at(v, i), f'element {show(i)[:80]}')
            return b, cs + [C([], TRUE, 'idx', i, w)]
        if t.op == 'fix':
            return self.fix(t, pc)
        if t.op == 'mb':
            return self.mb(t, pc)
        if t.op in ('bc', 'cat'):
            return self.vec(t, pc)
        raise Undecided(f'accumulation not recognised: {show(t, 5)[:200]}')

    def minus(self, x, old, what):
        """x - old, where old occurs exactly once, added"""
        if old not in set(subterms(x)):
            why = murky(x)
            if why and 'loop' not in why:
                raise Undecided(why)
            self.bad(f'the count of {what} is overwritten instead of added to: {show(x, 8)[:300]}')
        ds = []
        for g, l in leaves(x):
            d = sub(l, old) if isint(l) else fsub(l, old)
            if old in set(subterms(d)):
                why = murky(d)
                if why and 'loop' not in why:
                    raise Undecided(why)
                self.bad(f'the count of {what} is not added to: {show(l, 8)[:300]}')
            ds.append((g, d))
        r = ds[-1][1]
        for g, d in ds[:-1]:
            r = ite(g, d, r)
        return r

    def mset(self, t, pc):
        m, k, v = t.args
        h = has(m, k)
        b, cs = self.go(m, pc)
        if h is FALSE:
            if b is EMPTY or b.op == 'mempty':
                return b, cs + [C([], TRUE, 'map', k, v)]
        vt, vf = restrict(v, AND(pc, h)), restrict(v, AND(pc, NOT(h)))
        if v is UNIT:
            return b, cs + [C([], TRUE, 'set', k, UNIT)]
        w1 = self.minus(vt, mget(m, k), f'{show(k, 5)[:120]}')
        if w1 is not vf and not veq(w1, vf, pc):
            why = murky(w1, vf)
            if why:
                raise Undecided(why)
            self.bad(f'the first occurrence of {show(k, 5)[:120]} counts {show(vf, 6)[:80]}, a later one {show(w1, 6)[:80]}')
        return b, cs + [C([], TRUE, 'map', k, w1)]

    def fix(self, t, pc):
        n, inits = t.args[2][0], t.args[2][1:]
        ph = [fresh('phi') for _ in inits]
        j = fresh('j')
        body = open_(t, *ph, j)
        nx = body.args[2]
        self.phis.update({p: i for p, i in zip(ph, inits)})
        self.rounds.update({p: n for p in ph})
        # an accumulator that is filled and emptied again in every iteration
        b, cs = self.go(nx[0], AND(pc, lt(j, n)))
        b0, cs0 = self.go(inits[0], pc)
        if b is not ph[0]:
            if b.op in ('mempty', 'rep') or b is K0:
                self.bad('every round starts over from nothing, so that only the last one counts')
            raise Undecided('accumulation does not go on from the previous round')
        # a vector that keeps its length is as long as it was at first
        L = mk('len', ph[0])
        if any(L in set(subterms(x)) for c in cs for x in c.terms()) and seqlen(nx[0]) is L:
            cs = [c.repl(L, seqlen(inits[0])) for c in cs]
        return b0, cs0 + [c.wrap(j, n) for c in cs]

    def mb(self, t, pc):
        n, init = t.args[2]
        j = fresh('j')
        b = open_(t, j)
        g, k, v = b.args[2]
        b0, cs0 = self.go(init, pc)
        if v is UNIT:
            return b0, cs0 + [C([(j, n)], g, 'set', k, v)]
        # a map filled key by key from another one
        ent = [x for x in find(k, lambda x: x.op == 'at') if x.args[0].op == 'entries' and x.args[1] is j]
        if ent and k is fld(ent[0], 0, 0) and b0.op == 'mempty':
            return b0, cs0 + [C([(j, n)], g, 'map', k, v)]
        why = murky(v)
        if why and 'loop' not in why:
            raise Undecided(why)
        self.bad(f'the count of {show(k, 5)[:120]} is overwritten instead of added to: {show(v, 8)[:200]}')

    def vec(self, t, pc):
        ps = t.args if t.op == 'cat' else (t,)
        p0 = ps[0]
        if p0.op == 'slice' and p0.args[1] is K0 and len(ps) == 2 and ps[1].op == 'slice' and (ps[1].args[0] in self.phis or ps[1].args[0].op == 'sym'):
            self.bad('what was added up so far is overwritten by the counts of a chunk')
        if p0.op != 'bc' or len(ps) > 2:
            raise Undecided(f'accumulated vector not recognised: {show(t, 5)[:200]}')
        n = p0.args[2][0]
        i = fresh('i')
        el = open_(p0, i)
        if el.op != 'one':
            raise Undecided('accumulated vector not recognised')
        el = el.args[0]
        cand = {x.args[0] for x in find(el, lambda x: x.op == 'at' and x.args[1] is i)} if False else \
            {x.args[0] for x in subterms(el) if x.op == 'at' and x.args[1] is i}
        acc = [v for v in cand if v in self.phis or v.op == 'sym' and v.args and v.args[0] == 'phi']
        if not acc:
            acc = [v for v in cand if v.op in ('cat', 'bc') and any(p in v.fv for p in self.phis)]
        if len(acc) != 1:
            raise Undecided(f'accumulated vector not recognised: {show(el, 5)[:200]}')
        v = acc[0]
        w = self.minus(el, at(v, i), 'an element')
        L = seqlen(v)
        full = n
        tail = EMPTY
        if len(ps) == 2:
            tail = ps[1]
        # the vector keeps its length, so that is the length it started with
        if v in self.phis:
            m = {L: seqlen(self.phis[v])}
            full, L0 = subst2(n, m), m[L]
        else:
            full, L0 = n, L
        if len(ps) == 2 and not (tail.op == 'slice' and tail.args[0] is v and tail.args[1] is n):
            raise Undecided('rest of the accumulated vector not recognised')
        if full is not L0:
            if murky(full, L0):
                raise Undecided(murky(full, L0))
            self.bad(f'only {show(full, 6)[:200]} of {show(L0, 6)[:200]} elements are added up')
        b, cs = self.go(v, pc)
        if w.op == 'at' and w.args[1] is i:
            x = w.args[0]
            bx, cx_ = self.go(x, pc)
            if bx.op == 'rep':
                return b, cs + cx_
            if bx in self.phis:
                self.bad('private counts are added again in every round although they still hold the previous rounds')
            if not cx_:
                return b, cs + [C([], TRUE, 'vec', None, x)]
            raise Undecided('private vector not recognised')
        if v in subterms(w):
            raise Undecided('accumulated vector not recognised')
        return b, cs + [C([(i, L0)], TRUE, 'idx', i, w)]

    # ------------------------------------------------------------------
    def flatten(self, c):
        """entries of accumulated maps are replaced by what was added to them; chunks by the whole"""
        out = self.expand(c)
        return [self.tighten(self.unchunk(self.rechunk(x))) for x in out]

    def rechunk(self, c):
        """stretches of fixed length, one after the other to the end, are chunks"""
        for a in range(len(c.binders)):
            j, n = c.binders[a]
            if n.op == 'imax' and K0 in n.args and len(n.args) == 2:
                n = [x for x in n.args if x is not K0][0]
            if n.op != 'div' or n.args[1].op != 'k':
                continue
            k = n.args[1]
            L = sub(n.args[0], K(k.args[0] - 1))
            if L.op != 'len':
                continue
            x = L.args[0]
            pos = mul(k, j)
            ch = mk('chunks', x, k)
            d = c.repl(imin(pos, L), pos)
            ok_ = {imin(add(pos, k), L), add(pos, imin(sub(L, pos), k))}
            for t in {t for z in d.terms() for t in subterms(z) if t.op == 'slice' and t.args[0] is x and t.args[1] is pos and t.args[2] in ok_}:
                d = d.repl(t, at(ch, j))
            d.binders[a] = (j, seqlen(ch))
            if any(t is pos for z in d.terms() for t in subterms(z)):
                continue
            c = d
        return c

    def tighten(self, c):
        """the first or the last round of a loop, when it contributes nothing, is left out of the bounds"""
        for a in range(len(c.binders)):
            j, n = c.binders[a]
            for _ in range(2):
                if c.cond is TRUE or j not in c.cond.fv:
                    break
                if subst(c.cond, {j: K0}) is FALSE:
                    d = c.subst({j: add(j, K1)})
                    d.binders[a] = (j, imax(K0, sub(n, K1)))
                elif j not in n.fv and subst(c.cond, {j: sub(n, K1)}) is FALSE:
                    d = C(list(c.binders), c.cond, c.kind, c.key, c.weight)
                    d.binders[a] = (j, imax(K0, sub(n, K1)))
                else:
                    break
                n = d.binders[a][1]
                # what the new bound implies is no condition
                d.cond = restrict(d.cond, AND(le(K0, j), lt(j, n)))
                if d.cond is not TRUE and proves(OR(NOT(AND(le(K0, j), lt(j, n))), d.cond)):
                    d.cond = TRUE
                if d.key is not None:
                    d.key = restrict(d.key, lt(j, n))
                d.weight = restrict(d.weight, lt(j, n))
                c = d
        return c

    def expand(self, c):
        for idx, (j, n) in enumerate(c.binders):
            if n.op == 'len' and n.args[0].op == 'entries':
                M = n.args[0].args[0]
                e = at(n.args[0], j)
                b, cs = self.go(M)
                if b in self.phis or b.op == 'sym' and b.args and b.args[0] in ('phi', 'acc'):
                    self.bad('counts are added again in every round although they still hold the previous rounds')
                if b.op != 'mempty' or not cs or not all(x.kind in ('map', 'set') for x in cs):
                    return [c]
                sets = [x for x in cs if x.kind == 'set']
                if sets:
                    return [c]
                if c.kind != 'map' or c.key is not fld(e, 0, 0):
                    return [c]
                w = c.weight
                out = []
                if w is not fld(e, 0, 1):
                    if fld(e, 0, 1) not in set(subterms(w)):
                        self.bad(f'a key counted several times by a chunk is added as {show(w)[:60]}')
                    return [c]
                for x in cs:
                    y = C(c.binders[:idx] + x.binders + c.binders[idx + 1:], AND(c.cond, x.cond), 'map', x.key, x.weight)
                    if any(e in set(subterms(t)) or j in t.fv for t in y.terms()):
                        return [c]
                    out += self.expand(y)
                return out
        return [c]

    def unchunk(self, c):
        while True:
            hit = None
            for a in range(len(c.binders)):
                j, n = c.binders[a]
                if n.op != 'len' or n.args[0].op != 'chunks':
                    continue
                ch = n.args[0]
                for b in range(a + 1, len(c.binders)):
                    j2, n2 = c.binders[b]
                    if n2 is seqlen(at(ch, j)):
                        hit = (a, b, ch, j, j2)
                        break
                if hit:
                    break
            if not hit:
                return c
            a, b, ch, j, j2 = hit
            i = fresh('i')
            bs = [x for k, x in enumerate(c.binders) if k not in (a, b)]
            bs.insert(a, (i, seqlen(ch.args[0])))
            d = C(bs, c.cond, c.kind, c.key, c.weight).repl(at(at(ch, j), j2), at(ch.args[0], i))
            if any(j in t.fv or j2 in t.fv for t in d.terms()):
                return c
            c = d


def joined(ls):
    """alternatives that write the same key of the same map are one write"""
    out = []
    for g, l in ls:
        for k, (g2, l2) in enumerate(out):
            if l.op == l2.op and l.op in ('mset', 'vset') and l.args[0] is l2.args[0] and l.args[1] is l2.args[1]:
                out[k] = (OR(g, g2), mk(l.op, l.args[0], l.args[1], ite(g2, l2.args[2], l.args[2])))
                break
        else:
            out.append((g, l))
    return out


def merge_cases(cs):
    out = []
    for c in cs:
        for o in out:
            if len(o.binders) == len(c.binders) and o.kind == c.kind and all(a is b for (_, a), (_, b) in zip(o.binders, c.binders)):
                m = {j: k for (j, _), (k, _) in zip(c.binders, o.binders)}
                d = c.subst(m)
                if d.key is o.key and d.weight is o.weight:
                    o.cond = OR(o.cond, d.cond)
                    break
        else:
            out.append(C(c.binders, c.cond, c.kind, c.key, c.weight))
    return out


def isint(t):
    return all(l.op not in TT.NOTINT for _, l in leaves(t))


def subst2(t, m):
    for a, b in m.items():
        t = LP.replace(t, a, b)
    return t


def unitems(t):
    while t.op == 'items':
        t = t.args[0]
    return t


def contributions(r, t, A=None):
    A = A or Acc(r)
    b, cs = A.get(t)
    return b, [x for c in cs for x in c]


def chunky(cs):
    """something still depends on how the work is split"""
    for c in cs:
        for t in c.terms():
            if find(t, lambda x: x.op == 'chunks' and find(x.args[1], lambda y: y.op == 'call')):
                return True
    return False
