"""Loop summaries: fixpoint over modified locations, closed forms, exits."""
from terms import *
import terms as TT

INF = mk('inf')
ONE = mk('k', 1)
ZERO = mk('k', 0)


def is_struct(I, key):
    if key in ('tup', 'iter'):
        return True
    s = getattr(I, '_structs', None)
    if s is None:
        s = set()
        for h, a in I.p.adts.items():
            if len(a['variants']) == 1:
                s.add(I.adtkey(h))
        I._structs = s
    return key in s


OPAQ = ('sym', 'fld', 'at', 'undef', 'fix', 'mget', 'deref', 'call', 'hmax')


def diff(I, a, b, path, out):
    if a is b:
        return
    k = b if b.op == 'agg' else a
    if k.op == 'ite' or b.op == 'ite':
        ls = [l for x in (a, b) for _, l in leaves(x)]
        ks = [l for l in ls if l.op == 'agg']
        if ks:
            k = ks[0]
            if k.args[0] == 'clos' or not is_struct(I, k.args[0]) or not k.args[2] or \
               any(l.op not in OPAQ and not (l.op == 'agg' and l.args[:2] == k.args[:2] and len(l.args[2]) == len(k.args[2])) for l in ls):
                out.append(path)
                return
            n = len(k.args[2])
            for i in range(n):
                diff(I, fld(a, k.args[1], i), fld(b, k.args[1], i), path + (('f', k.args[1], i, k.args[0], n),), out)
            return
    if k.op == 'agg' and k.args[0] != 'clos' and is_struct(I, k.args[0]) and k.args[2]:
        o = a if k is b else b
        if o.op == 'agg' or o.op in OPAQ:
            if o.op == 'agg' and (o.args[:2] != k.args[:2] or len(o.args[2]) != len(k.args[2])):
                out.append(path)
                return
            n = len(k.args[2])
            for i in range(n):
                diff(I, fld(a, k.args[1], i), fld(b, k.args[1], i), path + (('f', k.args[1], i, k.args[0], n),), out)
            return
    out.append(path)


def covered(loc, locs):
    r, p = loc
    return any(r2 is r and p[:len(q)] == q for r2, q in locs)


def phi_sym(lid, loc):
    r, path = loc
    return sym('phi', lid, r, tuple((p[1], p[2]) for p in path))


class Loop:
    pass


def prune(M):
    out = []
    for loc in M:
        if not any(o != loc and o[0] is loc[0] and loc[1][:len(o[1])] == o[1] for o in M):
            out.append(loc)
    return out


def getv(I, st, loc):
    v = st.mem.get(loc[0])
    if v is None:
        v = mk('deref', loc[0].args[0]) if loc[0].op == 'rootd' else mk('undef', loc[0])
    for p in loc[1]:
        v = I.step_read(v, p)
    return v


def run_loop(I, lid, n, st, body, fr, e, raw=None, seq=None, own=None):
    if st.dead() or n is ZERO:
        return
    par, I.par_next = I.par_next, False
    if I.uniq:
        lid = lid + ('u',) + I.uniq
    entry = st.copy()
    M = I.modset.setdefault(lid, {})
    closed = {}
    j = sym('j', lid)
    TT.declare_nonneg(j)
    npass = 0
    own_dropped = None
    while True:
        npass += 1
        locs = prune([l for l in M if l[0] in entry.mem or l[0].op == 'rootd'])
        s = entry.copy()
        start = {}
        for loc in locs:
            v = closed.get(loc)
            if v is None:
                v = phi_sym(lid, loc)
                i0 = getv(I, entry, loc)
                if is_intlike(i0) and all_nonneg(i0) and False:
                    TT.declare_nonneg(v)
                if is_boollike(i0):
                    v = atom(v)
                if isinstance(i0, T) and i0.op == 'ref':
                    from interp import PTRS
                    PTRS.add(v)
            start[loc] = v
            I.write(s, loc[0], loc[1], v)
        if n is not None:
            s.pc = AND(entry.pc, lt(j, raw if raw is not None else n))
            if s.dead():
                return
        marks = {k: len(v) for k, v in I.pend.items()}
        ne, nu, nl = len(I.events), len(I.unk), len(I.looplog)
        I.lstack.append((lid, par))
        body(j, s)
        I.lstack.pop()
        exits = []
        for k in list(I.pend):
            v = I.pend[k]
            m = marks.get(k, 0)
            exits += [(k, x, val) for x, val in v[m:]]
            del v[m:]
            if not v:
                del I.pend[k]

        def redo():
            del I.events[ne:]
            del I.unk[nu:]
            del I.looplog[nl:]
        # newly modified locations
        new = []
        for x in [s] + [x for _, x, _ in exits]:
            if x.dead():
                continue
            base = None
            for r, v in x.mem.items():
                if r not in entry.mem and r.op != 'rootd':
                    continue
                o = entry.mem.get(r)
                if base is None:
                    base = {}
                b = startval(I, r, entry, start)
                ps = []
                diff(I, b, v, (), ps)
                for p in ps:
                    # index steps never appear: paths are field steps
                    if not covered((r, p), list(start) + new):
                        new.append((r, p))
        if new:
            for l in new:
                M[l] = True
            for l in list(closed):
                if not any(l == x for x in prune(list(M))):
                    del closed[l]
            redo()
            if npass > 40:
                raise RuntimeError('loop fixpoint')
            continue
        bad = set(I.looplog[nl:]) | {lid}
        if s.dead():
            # the body never completes: at most one iteration
            redo()
            first_only(I, n, raw, st, body, lid, par)
            return
        unclosed = {phi_of(start[l]): l for l in locs if l not in closed}

        def allowed(t):
            for x in t.fv:
                if x.op == 'sym' and x.args[0] in ('phi', 'j') and x.args[1] in bad and x is not j:
                    return False
            return True
        nxt = {l: restrict(getv(I, s, l), s.pc) for l in locs}
        got = False
        for l in locs:
            if l in closed or exits and getattr(I, 'openexits', False):
                continue
            c = try_close(getv(I, entry, l), start[l], nxt[l], j, allowed)
            if c is not None:
                closed[l] = c
                got = True
        if got:
            redo()
            continue
        # counted loops
        if n is None and own is not None:
            cand = None
            for x in exits:
                if x[0] != own:
                    continue
                g = restrict(x[1].pc, entry.pc)
                N = counter(g, j)
                if N is not None and allowed(N) and all(getv(I, x[1], l) is start[l] or spent(l, getv(I, x[1], l), start[l]) for l in locs):
                    cand = (x, N)
            if cand:
                n, raw = imax(cand[1], ZERO), cand[1]
                own_dropped = raw
                redo()
                continue
        break
    I.looplog.append(lid)
    info = Loop()
    info.lid, info.n, info.raw, info.j, info.par, info.seq = lid, n, raw, j, par, seq
    info.where = I.where(fr, e)
    info.stack = tuple(I.lstack)
    info.pc = entry.pc
    info.endpc = s.pc
    info.frame = fr.id
    info.entry, info.end = entry, s
    info.start, info.vars, info.exits = start, {}, []
    I.loops[lid] = info
    # values after normal completion
    fins = {}
    for l in locs:
        init = getv(I, entry, l)
        if l in closed:
            fins[l] = subst(closed[l], {j: n}) if n is not None else None
        else:
            fins[l] = None
    if own_dropped is not None:
        # the exit that gave the count is not taken before it
        exits = [(k, x, val) for k, x, val in exits if not (k == own and counter(restrict(restrict(x.pc, entry.pc), lt(j, raw)), j) is own_dropped)]
    if n is not None:
        for l in locs:
            if fins[l] is None:
                fins[l] = fix(I, lid, l, locs, closed, start, nxt, entry, j, n)
    for l in locs:
        info.vars[l] = dict(init=getv(I, entry, l), phi=start[l], next=nxt[l], final=fins[l], closed=l in closed)
    # exits
    G = FALSE
    gs = []
    for k, x, val in exits:
        g = restrict(x.pc, entry.pc)
        if n is not None:
            g = restrict(g, lt(j, raw if raw is not None else n))
        gs.append(g)
        G = OR(G, g)
        info.exits.append((k, g, x, val))
    info.G = G
    E = FALSE
    if exits:
        if allowed(G):
            jj = sym('jx', lid)
            TT.declare_nonneg(jj)
            Gj = subst(G, {j: jj})
            if n is not None:
                E = bexists(n, jj, Gj)
                J = bfirst(n, jj, Gj)
            else:
                E = TRUE
                J = bfirst(INF, jj, Gj)
            TT.declare_nonneg(J)
            m = {j: J}
        else:
            m = {}
            E = NOT(atom(mk('done', lid, G))) if n is not None else TRUE
        info.E = E
        for (k, x, val), g in zip(exits, gs):
            pc = AND(entry.pc, E, subst(restrict(g, G), m))
            y = type(st)({}, pc)
            mm = m
            for l in locs:
                # left when a list is empty: it is empty afterwards
                p = start[l]
                if p.op == 'sym' and TT.find(g, lambda t: t.op == 'len' and t.args[0] is p) and restrict(lt(seqlen(p), ONE), g) is TRUE:
                    mm = dict(mm)
                    mm[p] = EMPTY
            if m and not getattr(I, 'openexits', False):
                # what is not in closed form, after the rounds before this one
                mm = dict(mm)
                for l in locs:
                    p = phi_of(start[l])
                    if l not in closed and p.op == 'sym' and p not in mm and any(p in v.fv for v in x.mem.values()):
                        mm[p] = fix(I, lid, l, locs, closed, start, nxt, entry, j, J, False)
            for r, v in x.mem.items():
                y.mem[r] = subst(v, mm) if mm and v.fv & set(mm) else v
            if val is not None and m:
                val = subst(val, m)
            if not y.dead():
                I.pend.setdefault(k, []).append((y, val))
    if n is None:
        st.pc = FALSE
        return
    st.mem = dict(entry.mem)
    for l in locs:
        I.write(st, l[0], l[1], fins[l])
    for r in list(st.mem):
        pass
    st.pc = AND(entry.pc, NOT(E))


def startval(I, r, entry, start):
    v = entry.mem.get(r)
    if v is None:
        v = mk('deref', r.args[0]) if r.op == 'rootd' else mk('undef', r)
    for (r2, p), x in start.items():
        if r2 is r:
            v = I.write_val(v, p, x)
    return v


def phi_of(t):
    if t.op == 'ite':
        return t.args[0]
    return t


def first_only(I, n, raw, st, body, lid, par):
    c = lt(ZERO, raw if raw is not None else n) if n is not None else TRUE
    c = restrict(c, st.pc)
    a = st.copy()
    a.pc = AND(st.pc, c)
    I.looplog.append(lid)
    if not a.dead():
        I.lstack.append((lid, par))
        body(ZERO, a)
        I.lstack.pop()
    b = st.copy()
    b.pc = AND(st.pc, NOT(c))
    I.assign_state(st, I.merge([(a, None), (b, None)]))


def is_intlike(t):
    return all(l.op not in TT.NOTINT for _, l in leaves(t))


def is_boollike(t):
    return all(l in (TRUE, FALSE) for _, l in leaves(t)) or t.op == 'ite' and t.args[1] in (TRUE, FALSE) and t.args[2] in (TRUE, FALSE)


def all_nonneg(t):
    return all(nonneg(l) for _, l in leaves(t))


def spent(loc, v, start):
    """an iterator's cursor beyond the end: as good as at the end"""
    return bool(loc[1]) and isinstance(loc[1][-1], tuple) and loc[1][-1][-2:] == ('iter', 2) and v is add(start, ONE)


def ceildiv(a, k):
    return TT.idiv(add(a, mk('k', k - 1)), mk('k', k))


def unmin(c, d, j):
    """min(a, L) compared with L is a compared with L"""
    for m, k in list(d.items()):
        if m.op == 'imin' and len(m.args) == 2 and j in m.fv and k in (1, -1):
            for L, a in (m.args, m.args[::-1]):
                if j in L.fv:
                    continue
                # k*(m - L) + c' < 0
                r = TT.lin_add((c, {t: v for t, v in d.items() if t is not m}), to_lin(L), k)
                if r[1] or k == 1 and r[0] < 0 or k == -1 and r[0] > -1:
                    continue
                return TT.lin_add((c, {t: v for t, v in d.items() if t is not m}), to_lin(a), k)
    return c, d


def counter(g, j):
    """N such that g <=> not (j < N)"""
    if g.op != 'ite':
        return None
    a, hi, lo = g.args
    if a.op != 'lt0' or hi not in (TRUE, FALSE) or lo not in (TRUE, FALSE):
        return None
    c, d = unmin(a.args[0], dict(a.args[1]), j)
    k = d.get(j)
    if not k or any(j in t.fv for t in d if t is not j):
        return None
    rest = {t: v for t, v in d.items() if t is not j}
    if k > 1 and hi is FALSE:
        # not (k*j + rest + c < 0): k*j < -(rest+c)
        return ceildiv(TT.from_lin((-c, {t: -v for t, v in rest.items()})), k)
    if k < -1 and hi is TRUE:
        return ceildiv(TT.from_lin((c + 1, rest)), -k)
    if k == 1 and hi is FALSE:
        # not (j + rest + c < 0): j < -(rest+c)
        return TT.from_lin((-c, {t: -v for t, v in rest.items()}))
    if k == -1 and hi is TRUE:
        # -j + rest + c < 0  <=> not (j <= rest+c) <=> not (j < rest+c+1)
        return TT.from_lin((c + 1, rest))
    return None


def _fresh(tag, *a):
    s = sym(tag, *a)
    TT.declare_nonneg(s)
    return s


def try_close(init, phi, nxt, j, allowed):
    """closed form of the value at the start of iteration j"""
    p = phi_of(phi)
    if nxt is phi:
        return init
    j2 = _fresh('jc', j.args[1])

    def at2(t):
        return subst(t, {j: j2})
    if p not in nxt.fv:
        # overwritten in every iteration
        if allowed(nxt):
            return ite(lt(j, ONE), init, subst(nxt, {j: sub(j, ONE)}))
        return None
    if phi.op == 'ite':
        t, f = assume(nxt, p, True), assume(nxt, p, False)
        if p in t.fv or p in f.fv:
            return None
        if t is TRUE and allowed(f):
            return OR(init, bexists(j, j2, at2(f)))
        if f is FALSE and allowed(t):
            return AND(init, NOT(bexists(j, j2, at2(NOT(t)))))
        return None
    if not all(a is not p and (p not in a.fv) and allowed(a) for a in atoms(nxt)):
        ats = False
    else:
        ats = True
    # sequences
    if nxt.op == 'cat':
        ps = nxt.args
        if ps[0] is phi:
            piece = cat(*ps[1:])
            if allowed(piece):
                return cat(init, bigcat(j, j2, at2(piece)))
            return None
        if ps[-1] is phi:
            piece = cat(*ps[:-1])
            if allowed(piece):
                # iteration i is in front of iteration i-1
                return cat(bigcat(j, j2, subst(piece, {j: sub(sub(j, ONE), j2)})), init)
            return None
    # moves on by a fixed step, up to a limit
    if nxt.op == 'imin' and init is ZERO and len(nxt.args) == 2:
        for L, a in (nxt.args, nxt.args[::-1]):
            d = sub(a, phi)
            if p not in L.fv and j not in L.fv and allowed(L) and d.op == 'k' and d.args[0] > 0 and TT.nonneg(L):
                return imin(mul(d, j), L)
    # the front is cut off in pieces of fixed length
    if nxt.op == 'slice' and nxt.args[0] is phi and nxt.args[2] is seqlen(phi) and nxt.args[1].op == 'imin' and len(nxt.args[1].args) == 2:
        for L, d in (nxt.args[1].args, nxt.args[1].args[::-1]):
            if L is seqlen(phi) and d.op == 'k' and d.args[0] > 0:
                return slice_(init, imin(mul(d, j), seqlen(init)), None)
    if nxt.op == 'slice' and nxt.args[0] is phi and nxt.args[1] is ZERO and nxt.args[2] is sub(seqlen(phi), ONE):
        # the last one is taken off every time
        return slice_(init, ZERO, sub(seqlen(init), j))
    ls = [l for _, l in leaves(nxt)]
    if nxt.op == 'vset' and nxt.args[0] is phi and nxt.args[1] is j:
        x = nxt.args[2]
        h = sym('hole', j.args[1])
        y = subst(x, {mk('at', phi, j): h})
        y = replace(x, mk('at', phi, j), at(init, j))
        if p not in y.fv and allowed(y):
            return cat(bigcat(j, j2, one(at2(y))), slice_(init, j, None))
        return None
    if ats and any(l.op == 'mset' for l in ls) and all(l is phi or (l.op == 'mset' and l.args[0] is phi) for l in ls):
        g = FALSE
        k = v = None
        for c, l in leaves(nxt):
            if l.op == 'mset':
                g = OR(g, c)
                k = l.args[1] if k is None else ite(c, l.args[1], k)
                v = l.args[2] if v is None else ite(c, l.args[2], v)
        b = tup(g, k, v)
        if allowed(b):
            return mbuild(j, j2, at2(b), init)
        return None
    if ats and all(l.op not in TT.NOTINT for l in ls):
        ok = True
        for l in ls:
            c, d = to_lin(l)
            if d.get(phi) != 1 or any(p in t.fv for t in d if t is not phi) or not allowed(TT.from_lin((c, {t: k for t, k in d.items() if t is not phi}))):
                ok = False
        if ok:
            d = sub(nxt, phi)
            if not any(l.op == 'unk' for l in ls):
                if j not in d.fv:
                    return add(init, mul(d, j))
                return add(init, bsum(j, j2, at2(d)))
    if ats and all(l.op in ('fl',) or l is phi for l in ls):
        ok = True
        for l in ls:
            c, d = TT.to_fl(l)
            if d.get(phi) != 1 or any(p in t.fv for t in d if t is not phi) or not all(allowed(t) for t in d if t is not phi):
                ok = False
        if ok:
            return fadd(init, bsumf(j, j2, at2(fsub(nxt, phi))))
    return None


def replace(t, old, new):
    """replace occurrences of the subterm old"""
    memo = {}

    def go(x):
        if x is old:
            return new
        r = memo.get(x)
        if r is not None:
            return r
        if not any(s.fv & old.fv for s in TT._sub(x.args)) and x.op != 'ite':
            r = x
        elif x.op in BIND:
            nb = TT.nbound(x)
            fs = [_fresh('openr', x.id, i) for i in range(nb)]
            b = go(open_(x, *fs))
            r = TT.REBIND[x.op](tuple(go(o) for o in x.args[2]), fs, b)
        else:
            r = TT.rebuild(x.op, tuple(goa(a) for a in x.args))
        memo[x] = r
        return r

    def goa(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(y) for y in a)
        return a
    return go(t)


def mapop(t, op, f):
    """replace every subterm with operator op by f of it"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == op:
            r = f(x)
        elif x.op in BIND:
            nb = TT.nbound(x)
            fs = [_fresh('openr', x.id, i) for i in range(nb)]
            b0 = open_(x, *fs)
            b, o = go(b0), tuple(go(o) for o in x.args[2])
            r = x if b is b0 and o == x.args[2] else TT.REBIND[x.op](o, fs, b)
        else:
            a = tuple(goa(a) for a in x.args)
            r = x if a == x.args else TT.rebuild(x.op, a)
        memo[x] = r
        return r

    def goa(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(y) for y in a)
        return a
    return go(t)


def mbuild(n, j, body, init):
    if n is ZERO:
        return init
    return bind('mb', (j,), body, (n, init))


def fix(I, lid, l, locs, closed, start, nxt, entry, j, n, final=True):
    """simultaneous recursion for the unclosed locations l depends on"""
    open_locs = [x for x in locs if x not in closed]
    phis = {phi_of(start[x]): x for x in open_locs}
    order, todo = [], [l]
    while todo:
        x = todo.pop(0)
        if x in order:
            continue
        order.append(x)
        ds = sorted((phis[v] for v in nxt[x].fv if v in phis), key=lambda y: str(y[1]))
        todo += [d for d in ds if d not in order]
    syms = [phi_of(start[x]) for x in order] + [j]
    body = tup(*[nxt[x] for x in order])
    t = bind('fix', tuple(syms), body, (n,) + tuple(getv(I, entry, x) for x in order))
    if final:
        I.finof[t] = (lid, l)
    return t
