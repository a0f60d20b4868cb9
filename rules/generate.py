"""The vocabulary generator (C23)."""
from train import *
from accum import Acc
from parallel import timeless
from pruning import free

GEN = 'tokengeex::generate::VocabularyGenerator'


class Phase:
    """tokens appended one by one: per iteration j < n, `el` under `push`"""
    same = {}

    def sw(self, t):
        """counters of the tokens taken as the number of tokens"""
        for a, b in self.same.items():
            t = LP.replace(t, a, b)
        return t


def loopvar(r, t):
    """(loop, location) whose state at the end or on leaving t is"""
    if t in r.I.finof:
        lid, loc = r.I.finof[t]
        return r.loops[lid], loc
    for l in r.loops.values():
        for loc, d in l.vars.items():
            if d['phi'] is t:
                return l, loc
    return None


def appended(r, t, pc, out, F):
    """phases, last first, of which the list t is made; returns what it starts from"""
    t = unitems(t)
    while t.op in ('sorted', 'rev', 'items'):
        t = restrict(t.args[0], pc)
    if t.op == 'ite':
        bases, alts = set(), []
        for g, x in leaves(t, pc):
            if AND(pc, g) is FALSE:
                continue
            o = []
            bases.add(appended(r, x, AND(pc, g), o, F))
            alts.append((g, o))
        if len(bases) != 1:
            raise Undecided('the vocabulary starts in several ways')
        # leaving early: some of the phases
        ids = lambda o: [(p.l.lid, p.loc) for p in o]
        best = max((o for _, o in alts), key=len)
        for g, o in alts:
            left = iter(ids(best))
            if not all(x in left for x in ids(o)):
                raise Undecided(f'the vocabulary is put together in several ways: {show(t, 4)[:200]}')
            for p in o:
                for b in best:
                    if b is not p and ids([b]) == ids([p]) and b.pre is not p.pre:
                        b.pre = ite(g, p.pre, b.pre)
        out.extend(best)
        return bases.pop()
    lv, pre = loopvar(r, t), EMPTY
    if lv is None and t.op == 'cat' and len(t.args) > 1:
        x = t.args[-1]
        if x.op == 'one' and len(t.args) == 2:
            # the last one, added on leaving
            lv = loopvar(r, t.args[0])
            if lv is not None:
                l, loc = lv
                if not any(st is not None and LP.getv(r.I, st, loc) is t for _, _, st, _ in l.exits):
                    lv = None
        else:
            lv = loopvar(r, x)
            if lv is not None and lv[0].vars[lv[1]]['init'] is EMPTY:
                pre = cat(*t.args[:-1])
            else:
                lv = None
    if lv is not None:
        l, loc = lv
        p = Phase()
        p.l, p.loc, p.d, p.pre = l, loc, l.vars[loc], pre
        d = p.d
        p.at = f'{l.where[0]} ({l.where[1]}:{l.where[2]})'
        p.push, p.el, p.last = FALSE, None, FALSE
        nx = restrict(d['next'], l.endpc)
        ways = [(g, x, False) for g, x in leaves(nx, l.endpc)]
        for key, g0, st, val in l.exits:
            if st is None:
                continue
            v = LP.getv(r.I, st, loc)
            ways += [(AND(g0, g), x, True) for g, x in leaves(restrict(v, g0), g0)]
        for g, x, leave in ways:
            if x is d['phi']:
                continue
            xs = x.args if x.op == 'cat' else (x,)
            if not xs or xs[0] is not d['phi']:
                if leave:
                    raise Undecided(f'{p.at}: leaving changes the tokens: {show(x, 5)[:300]}')
                if any(y.op == 'slice' and d['phi'] in subterms(y) for y in xs):
                    raise Violation(f'{p.at}: tokens already taken are removed again: {show(x, 6)[:300]}', r.where)
                raise Undecided(f'{p.at}: the step is not recognised: {show(x, 5)[:300]}')
            if len(xs) == 1:
                continue
            if len(xs) != 2:
                raise Undecided(f'{p.at}: several tokens are added in a step')
            g1 = g if leave else AND(l.endpc, g)
            for g2, y in leaves(xs[1], g1):
                if y is EMPTY:
                    continue
                if y.op != 'one':
                    raise Undecided(f'{p.at}: the step is not recognised: {show(y, 5)[:300]}')
                c = AND(g1 if leave else g, g2)
                if leave:
                    p.last = OR(p.last, c)
                else:
                    p.push = OR(p.push, c)
                p.el = y.args[0] if p.el is None else ite(c, y.args[0], p.el)
        if p.el is None:
            raise Undecided(f'{p.at}: nothing is added')
        out.append(p)
        return appended(r, d['init'] if pre is EMPTY else pre, TRUE, out, F)
    if t.op == 'bc':
        n = t.args[2][0]
        j = fresh('k')
        el = open_(t, j)
        if n.op == 'sumi':
            i = fresh('k')
            c = open_(n, i)
            S = {x.args[0] for x in subterms(c) if x.op == 'at' and x.args[1] is i}
            if c.op == 'ite' and {c.args[1], c.args[2]} == {K0, K1} and len(S) == 1 and not (murky(c) and 'loop' not in murky(c)):
                e = at(list(S)[0], i)
                if not any(F.kp(e) is x or F.val(e) is x for x in subterms(c)) and c.op == 'ite':
                    raise Violation(f'tokens are dropped from the finished vocabulary, single bytes included, unless {show(c.args[0], 5)[:200]}', r.where)
        if el.op == 'one' and n.op != 'k':
            el = el.args[0]
            src = {x.args[0] for x in subterms(F.val(el)) if x.op == 'at' and x.args[1] is j}
            if len(src) == 1:
                S = list(src)[0]
                if F.val(el) is F.val(at(S, j)):
                    if F.kp(el) is not F.kp(at(S, j)):
                        if murky(F.kp(el), at(S, j)):
                            raise Undecided('the keep mark of the finished vocabulary is not recognised')
                        raise Violation(f'the keep mark is changed at the end: {show(F.kp(el), 5)[:200]}', r.where)
                    S = restrict(S, pc)
                    if not veq(n, restrict(seqlen(S), pc), pc):
                        if n.op == 'imin' and any(veq(a, restrict(seqlen(S), pc), pc) for a in n.args):
                            raise Violation(f'only the first {show(n, 5)[:100]} tokens are kept in the end, which may drop single bytes', r.where)
                        raise Undecided(f'only {show(n, 5)[:100]} of the tokens are kept')
                    return appended(r, S, pc, out, F)
    if t.op == 'slice':
        raise Violation(f'tokens are dropped from the finished vocabulary: {show(t, 4)[:200]}', r.where)
    if t.op == 'filter' or t.op == 'bc' and t.args[2][0].op != 'k':
        why = murky(t)
        raise Undecided(f'the vocabulary is not recognised: {show(t, 4)[:200]}')
    return t


def grows(r, S, d):
    """the set only ever gains elements in a step"""
    st = [d['next']]
    while st:
        x = st.pop()
        if x is d['phi']:
            continue
        if x.op == 'ite':
            st += [l for _, l in leaves(x)]
        elif x.op == 'mset':
            st.append(x.args[0])
        else:
            return False
    return True


def along(r, t, loc):
    """the value of loc when the vocabulary is t, which loops left as it is"""
    if t.op == 'ite':
        a, b = along(r, t.args[1], loc), along(r, t.args[2], loc)
        return None if a is None or b is None else ite(t.args[0], a, b)
    for l in r.loops.values():
        d = l.vars.get(loc)
        if d is None:
            continue
        if any(x['phi'] is t for x in l.vars.values()):
            return d['phi']
    if t in r.I.finof:
        lid = r.I.finof[t][0]
        for x, (li, lc) in r.I.finof.items():
            if li == lid and lc == loc:
                return x
    return None


def distinct(p):
    """the tokens of a phase are the keys of a map, so no two are the same"""
    v = p.val
    if v.op == 'fld' and v.args[2] == 0:
        v = v.args[0]
    if v.op != 'at' or v.args[1] is not p.l.j:
        return False
    s = v.args[0]
    while s.op in ('sorted', 'items', 'rev'):
        s = s.args[0]
    return s.op in ('entries', 'mkeys')


def source(p, me, cx):
    v = p.val
    for nm in ('added_tokens', 'suggested_tokens'):
        L = fld(me, 0, cx.fnamed(GEN, nm))
        if v.op == 'at' and v.args[0] is L:
            if not veq(p.l.n, seqlen(L)) or v.args[1] is not p.l.j:
                raise Undecided(f'{p.at}: {nm} are gone through in an unusual way')
            return nm.split('_')[0]
    fr = fld(me, 0, cx.fnamed(GEN, 'frequencies'))
    if find(v, lambda x: x is fr or x.op in ('entries', 'mkeys') and fr in subterms(x)):
        return 'mined'
    if murky(v) and 'loop' not in murky(v):
        raise Undecided(murky(v))
    raise Undecided(f'{p.at}: tokens of unknown origin: {show(v, 6)[:200]}')


def generated(cx):
    if 'generated' in cx.cache:
        x = cx.cache['generated']
        if isinstance(x, Exception):
            raise x
        return x
    try:
        x = cx.cache['generated'] = _generated(cx)
    except (Undecided, Violation) as ex:
        cx.cache['generated'] = ex
        raise
    return x


class G:
    pass


def _generated(cx):
    q = G()
    q.F = F = fieldsof(cx)
    q.r = r = cx.run(cx.method(GEN, 'generate', crate=CLI), 'TRAIN', tag='open', openexits=True)
    cx.clear(r)
    q.me, q.size = r.p(0), r.p(1)
    q.phases = []
    ret = r.ret
    for g, x in leaves(ret):
        if unitems(x) is EMPTY and not proves(OR(NOT(g), lt(q.size, K1))):
            if murky(g) or find(g, lambda y: y.op == 'done'):
                raise Undecided(f'{r.path}: nothing is generated under a condition that is not recognised')
            raise Violation(f'{r.path}: the vocabulary is empty when {show(g, 6)[:200]}', r.where)
    q.base = appended(r, ret, TRUE, q.phases, F)
    q.phases.reverse()
    for p in q.phases:
        p.val, p.kp = F.val(p.el), F.kp(p.el)
        if p.val.op == 'ite':
            p.val = restrict(p.val, OR(AND(p.l.endpc, p.push), p.last))
        p.src = source(p, q.me, cx)
        p.stay = AND(p.l.endpc, p.push)
        p.go = OR(p.stay, p.last)
        p.before = p.d['phi'] if p.pre is EMPTY else cat(p.pre, p.d['phi'])
        # counters that go along with the tokens taken
        p.same = {}
        for loc, d in p.l.vars.items():
            if loc == p.loc or not isint(d['init']):
                continue
            n0, n1, n2 = (seqlen(p.d[k]) for k in ('init', 'phi', 'next'))
            for at_ in (lambda n: add(d['init'], sub(n, n0)), lambda n: sub(d['init'], sub(n, n0))):
                if veq(LP.replace(d['next'], d['phi'], at_(n1)), at_(n2), p.l.endpc):
                    p.same[d['phi']] = at_(n1)
                    break
    return q


def c23(cx):
    def bytes_():
        q = generated(cx)
        b, F = q.base, q.F
        if b.op != 'bc' or b.args[2][0].op != 'k':
            why = murky(b)
            if why:
                raise Undecided(why)
            raise Violation(f'the vocabulary does not start with the single bytes: {show(b, 5)[:300]}', q.r.where)
        n = b.args[2][0]
        j = fresh('k')
        x = open_(b, j)
        if x.op != 'one':
            why = murky(x)
            if why:
                raise Undecided(why)
            raise Violation(f'only some single bytes are taken: {show(x, 6)[:300]}', q.r.where)
        el = x.args[0]
        cx.same(n, mk('k', 256), 'the number of single bytes', q.r)
        cx.same(F.val(el), one(j), 'a single-byte token', q.r, lt(j, n))
        cx.same(F.kp(el), TRUE, 'the keep mark of a single byte', q.r, lt(j, n))
        return '256 single bytes, kept, then ' + ', '.join(p.src for p in q.phases) + ' tokens, nothing removed'
    cx.ob('bytes', 'all 256 bytes are in the vocabulary, marked keep, and nothing is removed', bytes_)

    def once():
        q = generated(cx)
        r = q.r
        n = 0
        # a set that has every value in the vocabulary
        grown = []
        for p in q.phases:
            cand = set()
            for loc, d in p.l.vars.items():
                if loc == p.loc:
                    continue
                if not any(x.op == 'mset' and x.args[2] is UNIT for x in subterms(d['next'])) or not grows(r, None, d):
                    continue
                if not proves(OR(NOT(p.stay), has(restrict(d['next'], p.stay), p.val))):
                    continue
                if p.last is FALSE or p is q.phases[-1] or all(
                        proves(OR(NOT(AND(g, p.last)), has(LP.getv(r.I, st, loc), p.val))) for _, g, st, _ in p.l.exits if st is not None):
                    cand.add(loc)
            grown.append(cand)

        def upto(i):
            """sets that have every token of the phases before i, and those that start with the bytes"""
            sets = set.intersection(*grown[:i + 1])
            good = set()
            for loc in sets:
                d = q.phases[0].l.vars.get(loc)
                if d is None:
                    continue
                S = d['init']
                b0 = q.base
                if S.op == 'mb' and b0.op == 'bc':
                    j = fresh('k')
                    g, k, v = open_(S, j).args[2]
                    x = open_(b0, j)
                    if S.args[2][0] is b0.args[2][0] and g is TRUE and x.op == 'one' and k is q.F.val(x.args[0]):
                        good.add(loc)
            return sets, good
        for i, p in enumerate(q.phases):
            n += 1
            sets, good = upto(i)
            V = p.before
            j = fresh('u')
            TT.declare_nonneg(j)
            dup = bexists(seqlen(V), j, eq(q.F.val(at(V, j)), p.val))
            if proves(NOT(AND(p.go, dup))):
                continue
            ok = False
            if i and distinct(p):
                # different from each other; from the ones before by a set that no longer changes
                for loc in set.intersection(*grown[:i]) - set(p.l.vars):
                    S = along(r, p.d['init'] if p.pre is EMPTY else p.pre, loc)
                    if S is None or not proves(NOT(AND(p.go, has(S, p.val)))):
                        continue
                    if loc in upto(i - 1)[1] or proves(NOT(AND(p.go, lt(seqlen(p.val), mk('k', 2))))):
                        ok = True
            for loc in good:
                d = p.l.vars[loc]
                if proves(NOT(AND(p.go, has(d['phi'], p.val)))):
                    ok = True
                elif proves(NOT(AND(p.go, has(d['phi'], p.val), NOT(dup)))):
                    ok = True
            if not ok:
                for loc in sets - good:
                    if proves(NOT(AND(p.go, has(p.l.vars[loc]['phi'], p.val)))):
                        if proves(NOT(AND(p.go, lt(seqlen(p.val), mk('k', 2))))):
                            ok = True
                        elif murky(q.phases[0].l.vars[loc]['init']):
                            raise Undecided(f'{p.at}: {murky(q.phases[0].l.vars[loc]["init"])}')
            if not ok:
                why = [w for w in (murky(x) for x in (p.push, p.val)) if w and 'loop' not in w]
                if why:
                    raise Undecided(why[0])
                raise Violation(f'{p.at}: a token that is already in the vocabulary can be added again: {show(p.push, 6)[:400]}', r.where)
        return f'{n} kinds of tokens, each added only if not yet there'
    cx.ob('once', 'no token is added twice', once)

    def order():
        q = generated(cx)
        rank = {'added': 0, 'suggested': 1, 'mined': 2}
        names_ = [p.src for p in q.phases]
        if [rank[x] for x in names_] != sorted(rank[x] for x in names_):
            raise Violation(f'tokens are taken in the order {", ".join(names_)}', q.r.where)
        for nm in ('added', 'suggested'):
            if nm not in names_:
                raise Violation(f'{nm} tokens are not taken', q.r.where)
        for p in q.phases:
            if p.src == 'mined':
                continue
            # passed over only when already there
            skip = AND(p.l.endpc, NOT(p.push), le(mk('k', 2), seqlen(p.val)))
            inn = FALSE
            for loc, d in p.l.vars.items():
                if loc != p.loc and any(x.op == 'mset' and x.args[2] is UNIT for x in subterms(d['next'])):
                    inn = OR(inn, has(d['phi'], p.val))
            V = p.before
            j = fresh('u')
            TT.declare_nonneg(j)
            inn = OR(inn, bexists(seqlen(V), j, eq(q.F.val(at(V, j)), p.val)))
            c = NOT(AND(skip, NOT(inn)))
            if not proves(c):
                why = [w for w in (murky(x) for x in (p.push, p.l.endpc)) if w and 'loop' not in w]
                if why:
                    raise Undecided(why[0])
                raise Violation(f'{p.at}: {"an" if p.src[0] == "a" else "a"} {p.src} token is passed over although there is room: when {show(NOT(c), 8)[:500]}', q.r.where)
        return ' before '.join(dict.fromkeys(names_))
    cx.ob('order', 'added tokens go first, then suggested, then mined ones', order)

    def keep():
        q = generated(cx)
        for p in q.phases:
            kp, want = restrict(p.kp, p.go), TRUE if p.src == 'added' else FALSE
            here = AND(p.go, TRUE if p.l.n is None else lt(p.l.j, p.l.n), instances(kp, [p.l.j]))
            if proves(OR(NOT(here), kp if want is TRUE else NOT(kp))):
                continue
            if want is FALSE and proves(OR(NOT(here), kp)):
                raise Violation(f'{p.at}: {p.src} tokens are marked keep: {show(kp, 5)[:200]}', q.r.where)
            cx.same(kp, want, f'{p.at}: the keep mark of {p.src} tokens', q.r, p.go)
        return f'{len(q.phases)} kinds of tokens: only added ones are marked keep'
    cx.ob('keep', 'besides the bytes only added tokens are marked keep', keep)

    def size():
        q = generated(cx)
        r = q.r
        for p in q.phases:
            V = p.before
            room = lambda x: lt(seqlen(x), q.size)
            grown = le(seqlen(p.d['init']), seqlen(p.d['phi']))
            c = p.sw(OR(NOT(p.go), NOT(grown), room(V)))
            if not proves(c):
                # ... or there is room at the start and after each step
                d = p.d
                first = d['init'] if p.pre is EMPTY else cat(p.pre, d['init'])
                nxt = restrict(d['next'] if p.pre is EMPTY else cat(p.pre, d['next']), p.l.endpc)
                if proves(OR(NOT(p.l.pc), room(first))) and proves(p.sw(OR(NOT(p.l.endpc), NOT(room(V)), room(nxt)))):
                    continue
                why = [w for w in (murky(x) for x in (p.go,)) if w and 'loop' not in w]
                if why:
                    raise Undecided(why[0])
                raise Violation(f'{p.at}: a token is added although the requested size is reached', q.r.where)
            for key, g, st, val in p.l.exits:
                if p.src == 'mined':
                    continue
                after = V
                if st is not None and LP.getv(r.I, st, p.loc) is not p.d['phi']:
                    after = LP.getv(r.I, st, p.loc)
                    after = restrict(after if p.pre is EMPTY else cat(p.pre, after), g)
                if proves(p.sw(OR(NOT(g), le(q.size, seqlen(after))))):
                    continue
                why = murky(g)
                if why and 'loop' not in why:
                    raise Undecided(why)
                raise Violation(f'{p.at}: no more {p.src} tokens are taken before the requested size is reached: when {show(g, 8)[:300]}', q.r.where)
        return f'{len(q.phases)} kinds of tokens: one at a time, only below the requested size'
    cx.ob('size', 'nothing but the bytes is added once the size is reached', size)

    cx.ob('candidates', 'mined candidates are at most the maximum length, whole characters and allowed', lambda: candidates(cx))
    cx.ob('known', 'only candidates, added and suggested tokens are counted', lambda: counted(cx))


# ------------------------------------------------------------------ candidates
def measure(t):
    """the lengths of the first characters add up to the position of the next one"""
    for _ in range(20):
        hit = None
        for x in subterms(t):
            if x.op != 'sumi':
                continue
            n = x.args[2][0]
            j = fresh('m')
            b = open_(x, j)
            if b.op == 'lenutf8':
                c = b.args[0]
                if c.op == 'fld' and c.args[2] == 1 and c.args[0].op == 'at' and c.args[0].args[0].op == 'charidx' and c.args[0].args[1] is j:
                    hit = (x, fld(at(c.args[0].args[0], n), 0, 0))
                    break
        if not hit:
            return t
        if any(b.op == 'bv' for b in hit[0].fv):
            # under a binder: open it first
            return LP.mapop(t, 'sumi', lambda x: onesum(x))
        t = LP.replace(t, *hit)
    return t


def onesum(x):
    n = x.args[2][0]
    j = fresh('m')
    b = open_(x, j)
    if b.op == 'lenutf8':
        c = b.args[0]
        if c.op == 'fld' and c.args[2] == 1 and c.args[0].op == 'at' and c.args[0].args[0].op == 'charidx' and c.args[0].args[1] is j:
            return fld(at(c.args[0].args[0], n), 0, 0)
    return x


def instances(t, js):
    """what the searches in t say about the positions js"""
    out = TRUE
    for x in subterms(t):
        if any(b.op == 'bv' for b in x.fv):
            continue
        if x.op == 'ex' and len(x.args[2]) == 1:
            n = x.args[2][0]
            for j in js:
                out = AND(out, OR(x, NOT(lt(j, n)), NOT(open_(x, j))))
        elif x.op == 'first' and len(x.args[2]) == 1:
            for j in js:
                out = AND(out, OR(NOT(lt(j, x)), NOT(open_(x, j))))
    return out


def counted_sets(cx):
    """what a chunk counts: (set contribution, condition, run)"""
    r = cx.run(cx.method(GEN, 'feed', crate=CLI), 'TRAIN')
    cx.clear(r)
    out = []
    for l in r.loops.values():
        if not l.par:
            continue
        for loc, d in l.vars.items():
            t = characters(timeless(d['final'] if d['final'] is not None else d['next']))
            A = Acc(r)
            _, cs = A.get(t)
            for c in [x for y in cs for x in y]:
                if c.kind not in ('map', 'set'):
                    raise Undecided('what is counted is not recognised')
                k = c.key
                if k.op == 'at' and k.args[0].op == 'mkeys':
                    b, ss = A.go(k.args[0].args[0])
                    out += [(s, c, r, l) for s in ss]
                else:
                    out.append((c, c, r, l))
    if not out:
        raise Undecided(f'{r.path}: nothing is counted')
    return out


def origin(cx, r, k):
    for nm in ('added_tokens', 'suggested_tokens'):
        if k.op == 'at' and k.args[0] is fld(r.p(0), 0, cx.fnamed(GEN, nm)):
            return nm.split('_')[0]
    return None


def candidates(cx):
    n = 0
    for s, c, r, l in counted_sets(cx):
        k = s.key
        if origin(cx, r, k):
            continue
        n += 1
        me = r.p(0)
        mx = fld(me, 0, cx.fnamed(GEN, 'max_token_length'))
        al = fld(me, 0, cx.fnamed(GEN, 'allow'))
        pc = AND(s.cond, *[lt(j, m) for j, m in s.binders])
        js = [j for j, _ in s.binders]
        c_ = measure(OR(NOT(pc), le(seqlen(k), mx)))
        d = OR(NOT(instances(measure(pc), js)), c_)
        d = measure(d)
        if not proves(d):
            why = [w for w in (murky(x) for x in (pc, k)) if w]
            if why:
                raise Undecided(why[0])
            raise Violation(f'{l.where[0]}: a candidate longer than the maximum is counted: {show(k, 6)[:200]} if {show(s.cond, 6)[:300]}', r.where)
        # allowed
        ok_ = OR(NOT(pc), NOT(instances(pc, js)), NOT(is_some(al)), atom(mk('rematch', fld(al, 1, 0), k)))
        if not proves(ok_):
            why = [w for w in (murky(x) for x in (pc, k)) if w]
            if why:
                raise Undecided(why[0])
            raise Violation(f'{l.where[0]}: a candidate the allow pattern rejects is counted: {show(k, 6)[:200]} if {show(s.cond, 6)[:300]}', r.where)
        # whole characters
        if k.op == 'slice':
            for e in k.args[1:]:
                if not boundary(measure(e), k.args[0], measure(pc)):
                    why = [w for w in (murky(x) for x in (e,)) if w]
                    if why:
                        raise Undecided(why[0])
                    raise Violation(f'{l.where[0]}: a candidate is cut at {show(e, 8)[:200]}, which need not be the end of a character', r.where)
        elif murky(k):
            raise Undecided(murky(k))
    if not n:
        raise Undecided('no candidates found')
    return f'{n} kinds of candidates'


def boundary(e, s, pc):
    """e is the start or the end of a character of s"""
    if e is K0 or e is seqlen(s):
        return True
    cis = [x for x in subterms(e) if x.op == 'at' and x.args[0].op == 'charidx']
    cbs = [x for x in subterms(pc) if x.op == 'charboundary' and proves(OR(NOT(pc), atom(x)))]

    def chars(base, off, depth=0):
        """base[off..] starts at a boundary of s"""
        if depth > 3:
            return False
        if off is K0 or off is seqlen(base):
            return True
        marks = [(x.args[0], x.args[1]) for x in cbs]
        for x in cis:
            st = fld(x, 0, 0)
            ln = mk('lenutf8', fld(x, 0, 1))
            marks += [(x.args[0].args[0], st), (x.args[0].args[0], add(st, ln))]
        for ci, d in marks:
            rest = sub(off, d)
            # ci is base, or a suffix of it from `rest`
            if ci is base and rest is K0:
                return True
            if ci.op == 'slice' and ci.args[0] is base and rest is ci.args[1] and chars(base, ci.args[1], depth + 1):
                return True
        return False
    return chars(s, e)


def counted(cx):
    kinds = {}
    for s, c, r, l in counted_sets(cx):
        o = origin(cx, r, s.key) or 'candidate'
        kinds[o] = kinds.get(o, 0) + 1
        if o == 'candidate':
            k = s.key
            smp = r.p(1)
            if not find(k, lambda x: x is smp) and not find(k, lambda x: x.op == 'at' and x.args[0] is smp):
                why = murky(k)
                if why:
                    raise Undecided(why)
                raise Violation(f'{l.where[0]}: something that is not part of a sample is counted: {show(k, 6)[:300]}', r.where)
    return ', '.join(f'{v} {k}' for k, v in kinds.items())


# ------------------------------------------------------------------ frequencies and scores (C34)
def characters(t):
    """the characters of a text, with or without their positions"""
    def at_(x):
        v, i = x.args[0], characters(x.args[1])
        if v.op == 'chars':
            return fld(at(mk('charidx', characters(v.args[0])), i), 0, 1)
        return at(characters(v), i)
    t = LP.mapop(t, 'at', at_)
    return LP.mapop(t, 'len', lambda x: seqlen(mk('charidx', characters(x.args[0].args[0])) if x.args[0].op == 'chars' else characters(x.args[0])))


def drawn(t):
    """every draw at one place of the code becomes one plain symbol"""
    def one_(x):
        w = x.args[0]
        unit_ = w == 'random' or w == 'range' and len(x.args) > 2 and getattr(x.args[-1], 'op', '') == 'agg' \
            and x.args[-1].args[2] == (KF(0.0), KF(1.0))
        return sym('draw', x.args[1], 'unit' if unit_ else 'odd')
    return LP.mapop(t, 'rand', one_)


def fed(cx):
    """(run, accumulator, what is added to the frequencies)"""
    r = cx.run(cx.method(GEN, 'feed', crate=CLI), 'TRAIN')
    cx.clear(r)
    fi = cx.fnamed(GEN, 'frequencies')
    t = characters(drawn(fld(r.mem(0), 0, fi)))
    A = Acc(r)
    b, cs = A.get(t)
    return r, A, fi, b, [x for c in cs for x in c]


def persample(cx):
    r, A, fi, b, cs = fed(cx)
    S = r.p(1)
    wholly(cx, r, S, 'feeding')
    if b is not fld(r.p(0), 0, fi):
        if murky(b):
            raise Undecided(murky(b))
        raise Violation(f'the frequencies of earlier feeds are lost: {show(b, 5)[:200]}', r.where)
    mk_ = {x for c in cs if c.key is not None for x in subterms(c.key) if x.op == 'mkeys'}
    if len(mk_) > 1:
        raise Undecided('several sets are counted')
    for c in cs:
        if c.kind == 'map' and len(c.binders) > 1 and not A_distinct(c) and not murky(c.key):
            raise Violation(f'a token found several times in one sample is counted several times: {c.show()[:400]}', r.where)
    for c in cs:
        for j, n in c.binders:
            if n.op != 'len' or n.args[0].op != 'entries':
                continue
            e = at(n.args[0], j)
            if c.key is fld(e, 0, 0):
                v = sym('count')
                w, g = LP.replace(c.weight, fld(e, 0, 1), v), LP.replace(c.cond, fld(e, 0, 1), v)
                if not murky(w) and w is not v and j not in w.fv:
                    raise Violation(f'the {show(v)} of a chunk is added as {show(w, 5)[:100]}', r.where)
                if not murky(g) and g is not TRUE and v in subterms(g) and not proves(OR(g, lt(v, K1))):
                    raise Violation(f'the count of a chunk is left out unless {show(g, 5)[:100]}', r.where)
    if not mk_:
        raise Undecided('how tokens are counted is not recognised')
    known = {x: sym('drawn') for x in mk_}

    def plain(t):
        for a, b_ in known.items():
            t = LP.replace(t, a, b_)
        return t

    def spec(js):
        K_ = mk_.copy().pop()
        return [seqlen(S), seqlen(K_)], at(K_, js[1]) if len(js) > 1 else None, K1
    return expect(cx, r, cs, 'map', spec, 'tokens of a sample', plain=plain)


def A_distinct(c):
    return c.key.op == 'fld' or c.key.op == 'at' and c.key.args[0].op in ('mkeys', 'entries')


def draws(cx):
    """(run, self, sample, [(contribution, condition with the draw won)]) for what each sample's set receives"""
    r, A, fi, b, cs = fed(cx)
    me, S = r.p(0), r.p(1)
    ip = fld(me, 0, cx.fnamed(GEN, 'insert_probability'))
    out = []
    if len(cs) != 1 or cs[0].key is None or cs[0].key.op != 'at' or cs[0].key.args[0].op != 'mkeys':
        raise Undecided('how tokens are counted is not recognised')
    X = cs[0].key.args[0].args[0]
    base, ss = A.go(X)
    smp = at(S, cs[0].binders[0][0])
    if base.op != 'mempty':
        if murky(base):
            raise Undecided(murky(base))
        raise Violation('the tokens of a sample are counted again with the next one', r.where)
    for s in ss:
        rs = {x for x in subterms(s.cond) if x.op == 'sym' and x.args and x.args[0] == 'draw'}
        if any(x.args[2] == 'odd' for x in rs):
            raise Undecided('how chance decides is not recognised')
        win = s.cond
        lose = s.cond
        for x in rs:
            a = flt(x, ip)
            win, lose = restrict(win, a), restrict(lose, NOT(a))
        left = {x for t in (win, lose) for x in subterms(t) if x in rs}
        if left:
            if murky(s.cond):
                raise Undecided(murky(s.cond))
            raise Violation(f'a token is drawn by another chance than the insertion probability: {show(s.cond, 6)[:300]}', r.where)
        if AND(lose, *[lt(j, n) for j, n in s.binders]) is not FALSE and rs:
            if murky(lose):
                raise Undecided(murky(lose))
            raise Violation(f'a token is drawn although chance is against it: when {show(lose, 6)[:300]}', r.where)
        if not rs and s.cond is not FALSE:
            if murky(s.cond):
                raise Undecided(murky(s.cond))
            raise Violation(f'a token is drawn without asking chance: {s.show()[:300]}', r.where)
        if len(rs) > 1:
            for x in rs:
                if all(AND(s.cond, NOT(flt(y, ip))) is FALSE for y in rs):
                    raise Violation('a token has to be drawn twice', r.where)
            raise Undecided('how chance decides is not recognised')
        out.append((s, win))
    return r, me, smp, out


def listed(cx):
    """added and suggested tokens are drawn whenever they occur in the sample"""
    r, me, smp, ds = draws(cx)
    seen = {}
    for nm in ('added_tokens', 'suggested_tokens'):
        L_ = fld(me, 0, cx.fnamed(GEN, nm))
        mine = [(s, g) for s, g in ds if s.key.op == 'at' and s.key.args[0] is L_]
        if not mine:
            if all(murky(s.key) is None for s, _ in ds):
                raise Violation(f'{nm} are never counted', r.where)
            raise Undecided(f'{nm}: not found among what is counted')
        if len(mine) > 1:
            raise Undecided(f'{nm}: counted in {len(mine)} ways')
        s, g = mine[0]
        if len(s.binders) != 1 or s.key.args[1] is not s.binders[0][0]:
            raise Undecided(f'{nm}: {s.show()[:200]}')
        j, n = s.binders[0]
        cx.same(n, seqlen(L_), f'{nm} looked for', r)
        here = lt(j, n)
        wants = (lt(K0, seqlen(mk('matchidx', smp, s.key))), is_some(mk('sfind', smp, s.key)))
        if not any(veq(g, w, here) for w in wants):
            if murky(g):
                raise Undecided(murky(g))
            raise Violation(f'{nm} are drawn when {show(g, 7)[:300]} instead of whenever they occur in the sample', r.where)
        seen[nm] = 1
    return 'both lists, whenever the token occurs in the sample'


def complete(cx):
    """every whole-character piece that is short enough and allowed is drawn"""
    r, me, smp, ds = draws(cx)
    f = lambda n: fld(me, 0, cx.fnamed(GEN, n))
    mx, al, sp = f('max_token_length'), f('allow'), f('split')
    lists = [f('added_tokens'), f('suggested_tokens')]
    cand = [(s, g) for s, g in ds if not (s.key.op == 'at' and s.key.args[0] in lists)]
    if not cand:
        raise Violation('no candidates are drawn from the samples', r.where)
    p, q, m = sym('cstart'), sym('cend'), sym('cpart')
    for x in (p, q, m):
        TT.declare_nonneg(x)
    n = 0
    for what, case in (('with', is_some(sp)), ('without', NOT(is_some(sp)))):
        parts = mk('finditer', fld(sp, 1, 0), smp)
        base = fld(at(parts, m), 0, 0) if what == 'with' else smp
        ci = mk('charidx', base)
        st = fld(at(ci, p), 0, 0)
        suf = slice_(base, st, seqlen(base))
        cs = mk('charidx', suf)
        end = add(add(st, fld(at(cs, q), 0, 0)), mk('lenutf8', fld(at(cs, q), 0, 1)))
        key = slice_(base, st, end)
        have, odd = FALSE, []
        for s, g in cand:
            if AND(g, case) is FALSE:
                continue
            k = restrict(s.key, case)
            bs = [(j, restrict(n_, case)) for j, n_ in s.binders]
            # the part, the start, the end
            want = ([(m, seqlen(parts))] if what == 'with' else []) + [(p, seqlen(ci)), (q, None)]
            sub_ = {}
            todo = []
            for j, n_ in bs:
                if n_ is K1:
                    sub_[j] = K0
                else:
                    todo.append((j, n_))
            if len(todo) != len(want):
                odd.append(s)
                continue
            okk, g2 = True, restrict(g, case)
            sparse = False
            for (j, n_), (x, b) in zip(todo, want):
                n2 = subst(n_, sub_)
                # the element this round is about
                idx = {y.args[1] for y in subterms(tup(k, s.cond)) if y.op == 'at' and j in y.args[1].fv}
                if len(idx) > 1:
                    okk = False
                    break
                i = idx.pop() if idx else j
                off = sub(i, j)
                if j in off.fv:
                    sparse = True
                    off = K0
                    if not proves(OR(NOT(lt(j, n_)), lt(j, i), le(i, j))) or murky(off):
                        okk = False
                sub_[j] = sub(x, subst(off, sub_))
                if off is not K0:
                    g2 = AND(g2, le(subst(off, sub_), x))
                if b is None or off is not K0 or not veq(n2, b, case):
                    if b is not None and off is K0 and (n2.op == 'len' or murky(n2)):
                        okk = False
                    g2 = AND(g2, lt(sub_[j], n2))
            if sparse and okk:
                continue
            if not okk or not veq(measure(subst(k, sub_)), measure(key), case):
                odd.append(s)
                continue
            have = OR(have, subst(g2, sub_))
            n += 1
        hyp = AND(case, lt(p, seqlen(ci)), lt(q, seqlen(cs)), le(seqlen(key), mx), OR(NOT(is_some(al)), atom(mk('rematch', fld(al, 1, 0), key))))
        if what == 'with':
            hyp = AND(hyp, lt(m, seqlen(parts)))
        # characters lie one after the other, so longer pieces end later
        endof = lambda i: add(fld(at(cs, i), 0, 0), mk('lenutf8', fld(at(cs, i), 0, 1)))
        lem = TRUE
        for x in subterms(have):
            if x.op in ('first', 'ex') and len(x.args[2]) == 1 and not any(b.op == 'bv' for b in x.fv):
                h = mk('first', *x.args)
                lem = AND(lem, OR(lt(q, h), le(endof(h), endof(q))))
                e = atom(mk('ex', *x.args))
                lem = AND(lem, OR(NOT(e), open_(x, h)), OR(e, le(x.args[2][0], h)))
                lem = AND(lem, OR(e, NOT(lt(q, x.args[2][0])), NOT(open_(x, q))))
        c = OR(NOT(measure(hyp)), NOT(measure(lem)), measure(have))
        if proves(c):
            continue
        if have is FALSE and not odd:
            raise Violation(f'{what} a split pattern: not all pieces of a sample are drawn', r.where)
        if odd or have is FALSE:
            raise Undecided(f'{what} a split pattern: how the candidates are enumerated is not recognised: {(odd or [cand[0][0]])[0].show()[:200]}')
        why = murky(have)
        if why:
            raise Undecided(why)
        raise Violation(f'{what} a split pattern: a piece is left out when {show(NOT(c), 9)[:500]}', r.where)
    return f'{n} ways to enumerate the pieces'


def roundno(l, t):
    """t with counters of the loop in terms of its round"""
    phis = {d['phi'] for d in l.vars.values()}
    m = {}
    for d in l.vars.values():
        if d['phi'] in t.fv:
            c = LP.try_close(d['init'], d['phi'], d['next'], l.j, lambda x: not phis & set(x.fv))
            if c is not None:
                m[d['phi']] = c
    return subst(t, m) if m else t


def weights(cx):
    q = generated(cx)
    F, r = q.F, q.r
    fr = fld(q.me, 0, cx.fnamed(GEN, 'frequencies'))
    fl = lambda t: mk('i2f', t) if t.op != 'k' else KF(float(t.args[0]))
    n = 0
    for p in q.phases:
        sc = restrict(F.sc(p.el), p.go)
        if p.src == 'mined':
            e = p.val
            if e.op == 'fld' and e.args[2] == 0 and e.args[0].op == 'at':
                cnt = fld(e.args[0], 0, 1)
            else:
                raise Undecided(f'{p.at}: the count of a mined token is not recognised')
            S, d = order(e.args[0].args[0], lambda x: fld(x, 0, 1), False)
            if unsort(e.args[0].args[0]) is not mk('entries', fr):
                raise Undecided('the candidates are not recognised')
            if d != 'desc':
                raise Violation('less frequent candidates go in before more frequent ones', r.where)
            if roundno(p.l, e.args[0].args[1]) is not p.l.j:
                raise Undecided('candidates are gone through in an unusual way')
        else:
            cnt = mget(fr, p.val)
        want = [w for a in (fl(cnt),) for b in (fl(seqlen(p.val)),) for w in (fmul(a, b), fmul(b, a))] + [mk('i2f', mul(cnt, seqlen(p.val)))]
        if any(veq(sc, w, p.go) for w in want):
            n += 1
            continue
        for g, x in leaves(sc, p.go):
            if AND(g, p.go) is FALSE or any(veq(x, w, AND(g, p.go)) for w in want):
                continue
            if p.src != 'mined' and x.op == 'k' or murky(LP.replace(x, p.l.j, sym('token'))):
                raise Undecided(f'{p.at}: the weight of {p.src} tokens is {show(x, 5)[:200]}')
            raise Violation(f'{p.at}: the weight of {p.src} tokens is {show(x, 8)[:300]} instead of frequency times length, {show(want[0], 8)[:300]}', r.where)
        n += 1
    j = fresh('byte')
    x = open_(q.base, j)
    if x.op == 'one':
        sc = F.sc(x.args[0])
        if j in sc.fv:
            raise Violation('single bytes weigh differently', r.where)
        E = mk('entries', fr)
        none_ = lt(seqlen(E), K1)
        if not veq(restrict(sc, none_), KF(1.0)):
            cx.same(restrict(sc, none_), KF(1.0), 'the weight of single bytes when nothing was counted', r)
        top = restrict(sc, NOT(none_))
        fs = [z for z in subterms(top) if z.op == 'at' and unsort(z.args[0]) is E]
        good = False
        for z in fs:
            S, d = order(z.args[0], lambda x: fld(x, 0, 1), False)
            if veq(top, fl(fld(z, 0, 1))):
                i0 = z.args[1]
                lastone = veq(i0, sub(seqlen(E), K1))
                if d == 'desc' and i0 is K0 or d == 'asc' and lastone:
                    good = True
                elif i0 is K0 or lastone:
                    raise Violation('single bytes do not weigh the highest frequency', r.where)
        if not good:
            if murky(top) or not fs:
                raise Undecided(f'the weight of single bytes is not recognised: {show(top, 6)[:200]}')
            raise Violation(f'single bytes weigh {show(top, 8)[:200]} instead of the highest frequency', r.where)
    return f'{n} kinds of tokens: frequency times length; single bytes the highest frequency'


def scores(cx):
    q = generated(cx)
    F, r = q.F, q.r
    n = 0

    def ways(t, pc=TRUE):
        for g, x in leaves(t, pc):
            x = unitems(x)
            if AND(pc, g) is FALSE:
                continue
            if x.op in ('sorted', 'rev', 'items'):
                yield from ways(x.args[0], AND(pc, g))
            else:
                yield AND(pc, g), x
    for g, t in ways(r.ret):
        if t.op != 'bc':
            if loopvar(r, t) and any(loopvar(r, t)[0] is p.l for p in q.phases):
                raise Violation('the scores are plain weights, not logarithms of shares', r.where)
            if murky(t) and 'loop' not in murky(t):
                raise Undecided(murky(t))
            raise Undecided(f'the finished vocabulary is not recognised: {show(t, 4)[:200]}')
        j = fresh('tok')
        el = open_(t, j)
        if el.op != 'one':
            raise Undecided('the finished vocabulary is not recognised')
        el = el.args[0]
        src = {x for x in subterms(F.sc(el)) if x.op == 'at' and x.args[1] is j}
        if len(src) != 1:
            raise Undecided(f'scores are not recognised: {show(F.sc(el), 6)[:200]}')
        x = src.pop()
        cx.must(x.args[0] in {y.args[0] for y in subterms(F.val(el)) if y.op == 'at' and y.args[1] is j}, 'tokens get the score of others', r)
        i = fresh('all')
        L0 = unsort(x.args[0])
        sums = [z for z in subterms(F.sc(el)) if z.op == 'sumf']
        if len(sums) != 1:
            if murky(F.sc(el)) and 'loop' not in murky(F.sc(el)):
                raise Undecided(murky(F.sc(el)))
            if not sums:
                raise Violation(f'the score of a token is {show(F.sc(el), 6)[:300]}, not the logarithm of its share', r.where)
            raise Undecided('several sums of weights')
        z = sums[0]
        b = open_(z, i)
        if not veq(z.args[2][0], seqlen(L0), g) and not veq(z.args[2][0], restrict(seqlen(L0), g), g) or \
                not (b.op == 'fld' and b.args[2] == F.score and b.args[0].op == 'at' and unsort(b.args[0].args[0]) is L0 and b.args[0].args[1] is i):
            if murky(b) and 'loop' not in murky(b):
                raise Undecided(murky(b))
            raise Violation(f'shares are taken of {show(z, 7)[:300]}, not of the sum of all weights', r.where)
        w = F.sc(x)
        ln = lambda v: mk('f_ln', v)
        wants = [fadd(ln(w), fmul(KF(-1.0), ln(z))), ln(fdiv(w, z))]
        if not any(veq(F.sc(el), a) for a in wants):
            if murky(F.sc(el)) and 'loop' not in murky(F.sc(el)):
                raise Undecided(murky(F.sc(el)))
            raise Violation(f'the score of a token is {show(F.sc(el), 8)[:300]}, not the logarithm of its share', r.where)
        n += 1
    return f'ln(weight) - ln(sum of weights), {n} ways'


def c34(cx):
    cx.ob('per-sample', 'a sample adds one to the frequency of every distinct token drawn from it; every sample counts', persample, cx)
    cx.ob('listed', 'added and suggested tokens are drawn whenever they occur in the sample', listed, cx)
    cx.ob('complete', 'every whole-character piece that is short enough and allowed can be drawn', complete, cx)
    cx.ob('weights', 'a token weighs its frequency times its length, single bytes the highest frequency', weights, cx)
    cx.ob('scores', 'the score of a token is the logarithm of its share of all weights', scores, cx)
