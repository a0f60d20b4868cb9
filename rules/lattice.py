"""The lattice: reuse (C26), best path, marginals and n-best (C30)."""
from train import *
from accum import Acc, contributions
from pruning import contents, free

LAT = 'tokengeex::lattice::Lattice'
NODE = 'tokengeex::lattice::Node'
POOL = 'tokengeex::lattice::VecPool'
HYP = 'tokengeex::lattice::Hypothesis'
NEG = KF(float('-inf')) if False else None


class Q:
    pass


def und(*ts):
    """an unmodelled construct is involved (loop states are not)"""
    for t in ts:
        w = murky(LP.mapop(t, 'hmax', lambda x: mk('sym', 'top', x.args[0])))
        if w and 'loop' not in w:
            raise Undecided(w)


def fields(cx):
    q = Q()
    for n in ('sentence', 'begin_nodes', 'end_nodes', 'nodes', 'bos_idx', 'eos_idx'):
        setattr(q, n, cx.fnamed(LAT, n))
    for n in ('pos', 'token_id', 'token_len', 'score', 'prev', 'backtrack_score'):
        setattr(q, 'n_' + n, cx.fnamed(NODE, n))
    q.nlat = len(cx.fty(LAT))
    return q


def fm(t, c):
    """maxima and minima where the order is known from c"""
    for _ in range(4):
        xs = [x for x in subterms(t) if x.op in ('fmax', 'fmin') and not any(b.op == 'bv' for b in x.fv)]
        new = t
        for x in xs:
            a, b = x.args
            for p, q in ((a, b), (b, a)):
                if proves(OR(NOT(c), flt(p, q))) or proves(OR(NOT(c), AND(NOT(flt(p, q)), NOT(flt(q, p))))):
                    new = LP.replace(new, x, q if x.op == 'fmax' else p)
                    break
        if new is t:
            return t
        t = new
    return t


def implied(c, a, b):
    """a equals b wherever c holds"""
    if veq(a, b, c):
        return True
    return veq(fm(restrict(a, c), c), fm(restrict(b, c), c), c)


def req_(cx, r, c, a, b, what):
    if c is FALSE or implied(c, a, b):
        return
    a, b = restrict(fm(restrict(a, c), c), c), restrict(fm(restrict(b, c), c), c)
    und(a, b)
    raise Violation(f'{what}: {show(a, 8)[:300]} instead of {show(b, 8)[:300]}' + (f' when {show(c, 5)[:200]}' if c is not TRUE else ''), r.where)


# ------------------------------------------------------------------ C26
def pool_get(I, a, st, fr, e):
    I.event('call', st, fr, e, name='pool_get', args=[], ret=None)
    return EMPTY


def pool_put(I, a, st, fr, e):
    v = I.deep(st, a[1])
    I.event('call', st, fr, e, name='pool_put', args=[v], ret=None)
    return UNIT


def start(cx):
    extra = {POOL + '::get': pool_get, POOL + '::put': pool_put}
    r = cx.run(cx.method(LAT, 'from', crate=LIB), None, extra=extra, tag='pool')
    cx.clear(r)
    return r


def c26(cx):
    def fresh_():
        q = fields(cx)
        r = start(cx)
        me, text = r.p(0), r.p(1)
        n = len(cx.fty(LAT))
        n1 = add(seqlen(text), K1)
        # how many lists the lattice held before only matters compared with how many it needs now
        cases = [{}]
        for i in (q.begin_nodes, q.end_nodes):
            m = seqlen(fld(me, 0, i))
            if any(x is m for x in subterms(r.mem(0))):
                cases = [dict(c) | {m: x} for c in cases for x in (add(n1, J(f'more{i}')), sub(n1, J(f'fewer{i}')))]
        for c in cases:
            check(q, r, subst_all(r.mem(0), c) if c else r.mem(0))
        return f'{n} fields set from the new text only; lists hold the markers only'

    def check(q, r, L):
        me, text = r.p(0), r.p(1)
        f = lambda i: fld(L, 0, i)
        names_ = [n for n, _ in cx.fty(LAT)]
        cx.same(f(q.sentence), text, 'the text of the lattice', r)
        # nothing of the old contents
        for i, n in enumerate(names_):
            v = f(i)
            old = [x for x in subterms(v) if x.op == 'fld' and x.args[0] is me or x is me]
            if old:
                und(v)
                raise Violation(f'{n} still depends on what the lattice held before: {show(v, 7)[:300]}', r.where)
        n = seqlen(text)
        for nm, B, k0, idx in (('begin_nodes', f(q.begin_nodes), n, f(q.eos_idx)), ('end_nodes', f(q.end_nodes), K0, f(q.bos_idx))):
            req_(cx, r, TRUE, seqlen(B), add(n, K1), f'the number of lists in {nm}')
            k = J('position')
            req_(cx, r, AND(lt(k, add(n, K1)), NOT(eq(k, k0))), at(B, k), EMPTY, f'{nm} of a position without marker')
            req_(cx, r, TRUE, at(B, k0), one(idx), f'{nm} of the {"end" if k0 is n else "start"}')
        N = f(q.nodes)
        req_(cx, r, TRUE, seqlen(N), mk('k', 2), 'the number of nodes')
        for nm, i, p in (('start', f(q.bos_idx), K0), ('end', f(q.eos_idx), n)):
            x = at(N, i)
            req_(cx, r, TRUE, fld(x, 0, q.n_pos), p, f'the position of the {nm} marker')
            req_(cx, r, TRUE, fld(x, 0, q.n_token_len), K0, f'the length of the {nm} marker')
            req_(cx, r, TRUE, fld(x, 0, q.n_score), KF(0.0), f'the score of the {nm} marker')
            req_(cx, r, TRUE, fld(x, 0, q.n_prev), NONE, f'the predecessor of the {nm} marker')
        req_(cx, r, TRUE, fld(at(N, f(q.bos_idx)), 0, q.n_backtrack_score), KF(0.0), 'the path score of the start marker')
        if not proves(NOT(eq(f(q.bos_idx), f(q.eos_idx)))):
            raise Violation('the markers share a node', r.where)
    cx.ob('fresh', 'after preparing a text nothing of the one before is left', fresh_)

    def pool():
        """handed-out storage is empty: either emptied when handed out, or everything put in is"""
        pf = cx.fidx(POOL, lambda s: 'Vec<' in s)
        ms = [(h, b) for h, b in cx.prog.bodies.items() if b['crate'].id == LIB and cx.prog.defs[h].get('self_ty') is not None and
              b['crate'].types[cx.prog.defs[h]['self_ty']].get('path') == POOL and cx.prog.defs[h]['kind'] in ('AssocFn', 'Fn')]
        got, outs = [], []
        elem = lambda t: [x for x in subterms(t) if x.op == 'at']
        rg = None
        n = 0
        for h, b in ms:
            r = cx.run(b, None)
            cx.clear(r)
            n += 1
            # values handed out or kept, under the invariant that pooled lists are empty
            for i in range(len(b['params'])):
                ty = b['crate'].types[b['params'][i]['ty']]
                if 'VecPool' not in ty['s']:
                    continue
                P = fld(r.p(i), 0, pf)
                m = r.mem(i)
                if m is not None and 'mut' in ty['s']:
                    outs.append((r, fld(m, 0, pf), P, 'kept'))
                if 'Vec<' in b['crate'].types[b['ret']]['s'] if isinstance(b.get('ret'), int) else True:
                    if r.ret is not UNIT:
                        outs.append((r, r.ret, P, 'handed out'))
            if r.ret.op == 'agg' and r.ret.args[0] == POOL:
                outs.append((r, fld(r.ret, 0, pf), None, 'kept'))
        emptied = False
        bad = []
        for r, v, P, how in outs:
            for pc, x in members(v, P, how):
                if x is EMPTY or x.op == 'rep' and x.args[1] is K0 or P is not None and x.op == 'at' and x.args[0] is P:
                    if how == 'handed out' and x.op == 'at':
                        emptied = emptied or False
                    continue
                und(x)
                bad.append((r, how, x))
        # if everything handed out is emptied at that time, what is kept does not matter
        late = all(x is EMPTY for r, v, P, how in outs if how == 'handed out' for _, x in members(v, P, how))
        for r, how, x in bad:
            if how == 'handed out' or not late:
                raise Violation(f'{r.path}: storage is {how} with its old contents: {show(x, 5)[:200]}', r.where)
        if not any(how == 'handed out' for _, _, _, how in outs):
            raise Undecided('no storage is handed out')
        return f'{n} functions of the pool: lists are empty when handed out'
    cx.ob('pool', 'recycled storage is handed out empty', pool)

    def private():
        a = cx.prog.adt_by_path.get(POOL)
        for x in a['variants'][0]['fields']:
            if x.get('pub'):
                raise Undecided('the pool is accessible from outside')
        r = start(cx)
        n = 0
        for e in r.ev('call'):
            if e.get('name') == 'pool_put':
                n += 1
        m = r.mem(2)
        if m is not None and m is not r.p(2):
            raise Undecided('the pool is changed directly')
        return f'{n} places give storage back, through the pool only'
    cx.ob('through', 'storage goes back through the pool', private)


def members(v, P, how):
    """the lists in a pool, or the one handed out"""
    out = []
    if how == 'handed out':
        return list(leaves(v))
    for g, x in leaves(v):
        for g, y in [(AND(g, h), z) for y in (x.args if x.op == 'cat' else (x,)) for h, z in leaves(y)]:
            while y.op in ('slice', 'items', 'rev', 'hrest'):
                y = y.args[0]
            if y is P or y is EMPTY:
                continue
            if y.op == 'one':
                out += [(AND(g, h), z) for h, z in leaves(y.args[0])]
            elif y.op == 'rep':
                out += [(AND(g, h), z) for h, z in leaves(y.args[0])]
            elif y.op == 'bc':
                j = fresh('k')
                o = open_(y, j)
                for h, z in leaves(o):
                    if z.op == 'one':
                        out += [(AND(g, h), w) for h, w in leaves(z.args[0])]
                    elif z is not EMPTY:
                        out.append((g, mk('unk', 'pool', z)))
            else:
                out.append((g, mk('unk', 'pool', y)))
    return out


# ------------------------------------------------------------------ C30
def c30(cx):
    cx.ob('insert', 'a node is listed where it begins and where it ends', lambda: insert(cx))
    cx.ob('best', 'each node is connected to the best reachable node that ends where it begins', lambda: viterbi(cx))
    cx.ob('path', 'the best path is read back without markers, or is empty', lambda: backtrack(cx))
    cx.ob('lse', 'log-sum-exp', lambda: lse(cx))
    cx.ob('sums', 'forward and backward sums run over all pairs of neighbours', lambda: marginal(cx))
    cx.ob('nbest', 'every predecessor of a hypothesis is expanded with its own score', lambda: nbest(cx))
    cx.ob('heap', 'the best hypothesis comes first', lambda: heap(cx))


def insert(cx):
    q = fields(cx)
    r = cx.run(cx.method(LAT, 'insert', crate=LIB), None)
    cx.clear(r)
    me = r.p(0)
    L = r.mem(0)
    pos, tid, ln, sc = (r.p(i) for i in range(1, 5))
    f = lambda m, i: fld(m, 0, i)
    old = f(me, q.nodes)
    new = f(L, q.nodes)
    k = seqlen(old)
    x = at(new, k)
    req_(cx, r, TRUE, seqlen(new), add(k, K1), 'the number of nodes')
    for n, v in (('pos', pos), ('token_id', tid), ('token_len', ln), ('score', sc)):
        req_(cx, r, TRUE, fld(x, 0, getattr(q, 'n_' + n)), v, f'{n} of the new node')
    for nm, i, p in (('begin_nodes', q.begin_nodes, pos), ('end_nodes', q.end_nodes, add(pos, ln))):
        a = f(L, i)
        b = f(me, i)
        pc = lt(p, seqlen(b))
        if not implied(pc, at(a, p), cat(one(k), at(b, p))):
            req_(cx, r, pc, at(a, p), cat(at(b, p), one(k)), f'{nm} of the position of the new node')
        j = J('other')
        req_(cx, r, AND(pc, lt(j, seqlen(b)), NOT(eq(j, p))), at(a, j), at(b, j), f'{nm} of other positions')
    for i in (q.sentence, q.bos_idx, q.eos_idx):
        req_(cx, r, TRUE, f(L, i), f(me, i), 'other fields')
    return 'listed once at its beginning and once at its end'


def sized(t, f, q):
    """one list per position and one more, as C26 shows"""
    for i in (q.begin_nodes, q.end_nodes):
        t = LP.replace(t, seqlen(f(i)), add(seqlen(f(q.sentence)), K1))
    return t


def vit(cx):
    if 'vit' in cx.cache:
        x = cx.cache['vit']
        if isinstance(x, Exception):
            raise x
        return x
    try:
        x = cx.cache['vit'] = _vit(cx)
    except (Undecided, Violation) as ex:
        cx.cache['vit'] = ex
        raise
    return x


def _vit(cx):
    v = Q()
    v.q = q = fields(cx)
    v.r = r = cx.run(cx.method(LAT, 'viterbi', crate=LIB), None)
    cx.clear(r)
    v.me = r.p(0)
    v.f = lambda i: fld(v.me, 0, i)
    v.n = seqlen(v.f(q.sentence))
    loc = [(l, x, d) for l in r.loops.values() for x, d in l.vars.items() if x[0] == root('P', 0) and x[1] and x[1][0][2] == q.nodes]
    o = [(l, x, d) for l, x, d in loc if not l.stack]
    if len(o) != 1:
        raise Undecided(f'{r.path}: {len(o)} outer loops')
    v.O, v.loc, v.od = o[0]
    return v


def viterbi(cx):
    v = vit(cx)
    q, r, O, f = v.q, v.r, v.O, v.f
    if O.n is None:
        raise Undecided(f'{r.path}: the loop over positions is not counted')
    req_(cx, r, TRUE, sized(O.n, f, q), add(v.n, K1), 'the number of positions gone through')
    if O.exits:
        raise Undecided(f'{r.path}: the loop over positions is left early')
    pos = O.j
    nx = v.od['next']
    if nx not in r.I.finof:
        und(nx)
        raise Undecided(f'{r.path}: the loop over nodes is not recognised: {show(nx, 4)[:200]}')
    M = r.loops[r.I.finof[nx][0]]
    md = M.vars[r.I.finof[nx][1]]
    bn, en = at(f(q.begin_nodes), pos), at(f(q.end_nodes), pos)
    # ascending positions: a node is only reached after everything that ends there
    if M.n is None or not veq(M.n, seqlen(bn)):
        und(M.n) if M.n is not None else None
        if M.n is not None and M.n.op == 'len' and murky(M.n) is None or M.n is not None and find(M.n, lambda x: x is f(q.begin_nodes)) and not find(M.n, lambda x: x.op == 'sumi'):
            raise Violation(f'the nodes gone through at a position are not those that begin there: {show(M.n, 6)[:200]}', r.where)
        raise Undecided(f'{r.path}: the loop over nodes is not recognised')
    if M.exits:
        raise Undecided(f'{r.path}: the loop over nodes is left early')
    rid = at(bn, M.j)
    N = md['phi']
    u = md['next']
    for g, x in leaves(u):
        while x.op == 'vset' and x.args[1] is rid:
            x = x.args[0]
        if x is not N:
            und(u)
            raise Undecided(f'{r.path}: the update of a node is not recognised: {show(u, 4)[:200]}')
    nd = restrict(at(u, rid), lt(rid, seqlen(N)))
    for n in ('pos', 'token_id', 'token_len', 'score'):
        i = getattr(q, 'n_' + n)
        req_(cx, r, TRUE, fld(nd, 0, i), fld(at(N, rid), 0, i), f'{n} of a node')
    PREV, BT = fld(nd, 0, q.n_prev), fld(nd, 0, q.n_backtrack_score)
    inner = {r.I.finof[x][0] for t in (PREV, BT) for x in subterms(t) if x in r.I.finof and any(s[0] == M.lid for s in r.loops[r.I.finof[x][0]].stack)}
    hoisted = False
    if not inner:
        # the predecessor depends on the position only: found once for all nodes that begin there
        inner = {r.I.finof[x][0] for t in (PREV, BT) for x in subterms(t) if x in r.I.finof and [s_[0] for s_ in r.loops[r.I.finof[x][0]].stack] == [O.lid] and x is not N}
        hoisted = True
    if len(inner) != 1:
        und(PREV, BT)
        raise Undecided(f'{r.path}: the search for the best predecessor is not recognised: {show(PREV, 5)[:200]}')
    I = r.loops[inner.pop()]
    if I.exits or I.n is None:
        raise Undecided(f'{r.path}: the search for the best predecessor is left early')
    if not veq(I.n, seqlen(en)):
        und(I.n)
        raise Violation(f'the predecessors considered are not those that end where the node begins: {show(I.n, 6)[:200]}', r.where)
    lid = at(en, I.j)
    pc = NOT(eq(lid, rid))

    def at_state(t, which):
        for loc, d in I.vars.items():
            t = LP.replace(t, d['final'], d[which])
        if hoisted:
            # the nodes that end here are not among those that begin here: nothing changes them meanwhile
            t = LP.replace(t, v.od['phi'], N)
        return t
    P0, B0 = at_state(PREV, 'phi'), at_state(BT, 'phi')
    P1, B1 = at_state(PREV, 'next'), at_state(BT, 'next')
    Pi = at_state(PREV, 'init')
    req_(cx, r, TRUE, Pi, NONE, 'the predecessor before any was considered')
    ln = at(N, lid)
    bos = f(q.bos_idx)
    reach = OR(eq(lid, bos), is_some(fld(ln, 0, q.n_prev)))
    s = fadd(fld(ln, 0, q.n_backtrack_score), fld(at(N, rid), 0, q.n_score))
    inner_ = NOT(eq(rid, f(q.eos_idx)))   # nothing follows the end marker: its own score is never read
    B0 = restrict(B0, AND(inner_, is_some(P0)))
    skip = AND(pc, NOT(reach))
    req_(cx, r, skip, P1, P0, 'the predecessor when a node that cannot be reached is considered')
    req_(cx, r, AND(AND(skip, is_some(P0)), inner_), B1, B0, 'the score when a node that cannot be reached is considered')
    go = AND(pc, reach)
    fst = AND(go, NOT(is_some(P0)))
    req_(cx, r, fst, P1, some(lid), 'the first reachable predecessor')
    req_(cx, r, AND(fst, inner_), B1, s, 'the score with the first reachable predecessor')
    # adding the same score to both never turns their order around
    b0, s0 = fsub(B0, fld(at(N, rid), 0, q.n_score)), fld(ln, 0, q.n_backtrack_score)
    mono = lambda x, y, x0, y0: AND(flt(x, y), NOT(flt(y, x)), NOT(flt(y0, x0)), OR(flt(x0, y0), mkeqf(x, y)))
    for c, what in ((mono(B0, s, b0, s0), 'better'), (mono(s, B0, s0, b0), 'worse')):
        k = AND(go, is_some(P0), c)
        req_(cx, r, k, P1, some(lid) if what == 'better' else P0, f'the predecessor after a {what} one was considered')
        req_(cx, r, AND(k, inner_), B1, s if what == 'better' else B0, f'the score after a {what} predecessor was considered')
    tie = AND(go, is_some(P0), NOT(flt(B0, s)), NOT(flt(s, B0)))
    if hoisted:
        tie = AND(tie, NOT(flt(b0, s0)), NOT(flt(s0, b0)))
    if not implied(tie, P1, P0) and not implied(tie, P1, some(lid)):
        und(P1)
        raise Violation(f'of equally good predecessors another one is taken: {show(restrict(P1, tie), 6)[:200]}', r.where)
    return f'all {show(O.n, 4)} positions in order, all nodes beginning there, all nodes ending there'


def backtrack(cx):
    v = vit(cx)
    q, r, f = v.q, v.r, v.f
    N = v.od['final']
    prev = lambda i: fld(at(N, i), 0, q.n_prev)
    eos = f(q.eos_idx)
    walk = [l for l in r.loops.values() if not l.stack and l.n is None]
    if len(walk) != 1:
        raise Undecided(f'{r.path}: {len(walk)} loops read the path back')
    W = walk[0]
    outs = [(loc, d) for loc, d in W.vars.items() if d['init'] is EMPTY]
    if len(outs) != 1:
        raise Undecided(f'{r.path}: the path is collected in {len(outs)} lists')
    d = outs[0][1]
    nx = restrict(d['next'], W.endpc)
    xs = [(g, x) for g, x in spread(nx) if AND(W.endpc, g) is not FALSE]
    passed = OR(*[g for g, x in xs if x is d['phi']])      # visited without being collected
    xs = [(g, x) for g, x in xs if x is not d['phi']]
    if len(xs) != 1 or xs[0][1].op != 'cat' or len(xs[0][1].args) != 2:
        und(nx)
        raise Undecided(f'{r.path}: how the path is collected is not recognised: {show(nx, 5)[:200]}')
    p = xs[0][1].args
    back = p[0] is d['phi']                 # appended: end to start
    el = p[1] if back else p[0]
    if not back and p[1] is not d['phi'] or el.op != 'one':
        und(nx)
        raise Undecided(f'{r.path}: how the path is collected is not recognised')
    el = el.args[0]
    X = None
    byidx = False
    st_ = {y for _, d2 in W.vars.items() for y in (d2['phi'],)}
    if el.op == 'at' and el.args[0] is N:
        X = el.args[1]
    elif el in st_ or el.op == 'fld' and el.args[0] in st_:
        X, byidx = el, True           # the nodes are looked up afterwards
    else:
        und(el)
        if v.O.exits:
            raise Undecided(f'{r.path}: the loop over positions is left early')
        raise Violation(f'something that is not a node of the lattice is returned: {show(el, 5)[:200]}', r.where)
    st = {d2['phi']: (d2['init'], d2['next']) for _, d2 in W.vars.items()}
    sub_ = lambda t, k: subst_all(t, {p: x[k] for p, x in st.items()})
    go = AND(W.endpc, NOT(passed))
    req_(cx, r, AND(W.endpc, is_some(prev(X))), sub_(X, 1), fld(prev(X), 1, 0), 'the node visited after a node')
    # the first node
    X0 = sub_(X, 0)
    if X0 is eos:
        if not proves(OR(NOT(AND(W.endpc, eq(X, eos))), passed)):
            und(passed)
            raise Violation('the end marker is returned as part of the path', r.where)
    else:
        req_(cx, r, is_some(prev(eos)), X0, fld(prev(eos), 1, 0), 'the node visited first')
    if not proves(OR(NOT(AND(W.endpc, passed)), NOT(is_some(prev(X))), eq(X, f(q.bos_idx)), eq(X, eos))):
        und(passed)
        raise Violation(f'a node of the path is left out when {show(passed, 5)[:200]}', r.where)
    # when it stops
    for key, g, s, val in W.exits:
        stop = OR(NOT(is_some(prev(X))), eq(X, f(q.bos_idx)))
        alive = [is_some(p) for p, (i, n) in st.items() if X.op == 'fld' and X.args[0] is p]
        if not proves(OR(NOT(g), stop, *[NOT(a) for a in alive])):
            und(g)
            raise Violation(f'the path is cut off: {show(g, 6)[:200]}', r.where)
    if not proves(NOT(AND(go, NOT(is_some(prev(X)))))) and not proves(NOT(AND(go, eq(X, f(q.bos_idx))))):
        und(go)
        raise Violation('the start marker is returned as part of the path', r.where)
    # what is returned
    ok_ = False
    for g, x in leaves(r.ret):
        if x is EMPTY or x.op == 'rep' and x.args[1] is K0:
            if not proves(OR(NOT(g), NOT(is_some(prev(eos))))):
                und(g)
                raise Violation(f'no path is returned although there is one: {show(g, 6)[:200]}', r.where)
            continue
        if not proves(OR(NOT(g), is_some(prev(eos)))):
            # nothing found: the list must be empty
            if X0 is not None and any(is_option_like(i) for i, _ in st.values()):
                pass
            else:
                und(g)
                raise Violation(f'a path is returned although there is none', r.where)
        y = x
        rev = False
        if byidx:
            k = J('step')
            m = seqlen(d['phi'])
            req_(cx, r, TRUE, seqlen(x), m, 'the number of nodes returned')
            z = restrict(at(x, k), lt(k, m))
            want = at(d['phi'], sub(sub(m, K1), k)) if back else at(d['phi'], k)
            if not veq(z, at(N, want), lt(k, m)):
                und(z)
                if z.op == 'at' and z.args[0] is N and z.args[1] in (at(d['phi'], sub(sub(m, K1), k)), at(d['phi'], k)):
                    raise Violation('the path is returned in the wrong order', r.where)
                raise Undecided(f'{r.path}: what is returned is not recognised: {show(x, 4)[:200]}')
            ok_ = True
            continue
        while y.op in ('rev', 'items'):
            rev ^= y.op == 'rev'
            y = y.args[0]
        if y is not d['phi'] and y is not d['final']:
            if y.op == 'slice' and find(y.args[0], lambda z: z is d['phi']) and not proves(OR(NOT(g), AND(eq(y.args[1], K0), eq(y.args[2], seqlen(y.args[0]))))) and y.args[1].op == 'k' and y.args[2].op == 'k':
                raise Violation(f'only a part of the path is returned: {show(y.args[1], 4)}..{show(y.args[2], 4)}', r.where)
            und(x)
            raise Undecided(f'{r.path}: what is returned is not recognised: {show(x, 4)[:200]}')
        if rev != back:
            raise Violation('the path is returned in the wrong order', r.where)
        ok_ = True
    if not ok_:
        raise Violation('no path is ever returned', r.where)
    return 'from the node before the end marker to the one after the start marker'


def is_option_like(t):
    return t.op == 'fld'


# ------------------------------------------------------------------ sums
def lse_anchor(I, a, st, fr, e):
    return mk('lse', *[I.deep(st, x) for x in a])


LSE = 'tokengeex::lattice::log_sum_exp'


def lse(cx):
    b = cx.body(LSE, crate=LIB, optional=True)
    if b is None:
        raise Undecided('log_sum_exp not found')
    r = cx.run(b, None)
    cx.clear(r)
    x, y = r.p(0), r.p(1)
    ini = atom(r.p(2)) if len(b['params']) > 2 else FALSE
    t = r.ret
    req_(cx, r, ini, t, y, 'the first value')
    t = restrict(t, NOT(ini))
    NI = KF(float('-inf'))
    n = 0
    for order in (flt(y, x), flt(x, y), AND(NOT(flt(x, y)), NOT(flt(y, x)))):
        hi, lo = (x, y) if order is flt(y, x) else (y, x)
        o = order
        if order is flt(y, x):
            o = AND(o, NOT(flt(x, y)))
        elif order is flt(x, y):
            o = AND(o, NOT(flt(y, x)))
        u = restrict(fm(restrict(t, AND(NOT(ini), o)), AND(NOT(ini), o)), AND(NOT(ini), o))
        for g, l in leaves(u):
            c = AND(NOT(ini), o, g)
            if c is FALSE:
                continue
            n += 1
            if l is hi or l is lo and o is not order:
                # dropped addend: it is nothing, or too small to matter
                if absent(g, lo, hi, NI):
                    continue
                und(g)
                raise Violation(f'the smaller value is left out when {show(g, 6)[:200]}', r.where)
            ok_ = False
            for a, b_ in ((hi, lo), (lo, hi)):
                d = fsub(b_, a)
                for w in (fadd(a, mk('f_ln', fadd(mk('f_exp', d), KF(1.0)))), fadd(a, mk('f_ln_1p', mk('f_exp', d)))):
                    if l is w and (a is hi or order not in (flt(y, x), flt(x, y))):
                        ok_ = True
            if not ok_:
                if order not in (flt(y, x), flt(x, y)) and (l is x or l is y) and absent(g, lo, hi, NI):
                    continue
                und(l)
                raise Violation(f'the sum of two values is {show(l, 8)[:200]}', r.where)
            if not proves(OR(NOT(g), flt(NI, lo))) and not proves(OR(NOT(g), NOT(mkeqf(lo, NI)))):
                und(g)
                raise Violation(f'two impossible values add up to an undefined one: nothing excludes {show(lo)} = -inf', r.where)
    return f'{n} cases'


def mkeqf(a, b):
    return AND(NOT(flt(a, b)), NOT(flt(b, a)))


def absent(g, lo, hi, NI):
    """g implies that lo is -inf or far below hi"""
    if proves(OR(NOT(g), NOT(flt(NI, lo)))):
        return True
    gs = []
    for x in subterms(g):
        if x.op == 'flt':
            gs.append(x)
    # distance tests: lo + K < hi
    far = FALSE
    for x in gs:
        d = fsub(x.args[1], x.args[0])
        base = fsub(hi, lo)
        k = fsub(base, d)
        if k.op == 'kf' or k.op == 'fl' and not k.args[1]:
            val = fconst(k)
            if val is not None and val >= 36.5:
                far = OR(far, atom(x))
    return proves(OR(NOT(g), far, NOT(flt(NI, lo))))


def fconst(k):
    try:
        if k.op == 'kf':
            return float(k.args[0])
        from fractions import Fraction
        return float(Fraction(*k.args[0]))
    except Exception:
        return None


def marg(cx):
    q = fields(cx)
    extra = {LSE: lse_anchor} if cx.body(LSE, crate=LIB, optional=True) else {}
    r = cx.run(cx.method(LAT, 'populate_marginal', crate=LIB), None, extra=extra, tag='lse')
    cx.clear(r)
    return q, r


def nest(r, t, what, skips=None):
    """loops around the innermost update of an array: [(loop, phi)], update"""
    out = []
    while t in r.I.finof:
        lid, loc = r.I.finof[t]
        l = r.loops[lid]
        if l.exits:
            raise Undecided(f'{what}: a loop is left early')
        d = l.vars[loc]
        out.append((l, d))
        t = d['next']
        if t.op == 'ite' and skips is not None:
            fs = {x for _, x in leaves(t) if x in r.I.finof}
            if len(fs) == 1 and all(x in fs or x is d['phi'] for _, x in leaves(t)):
                skips.append((l, OR(*[g for g, x in leaves(t) if x is d['phi']])))
                t = fs.pop()
    return out, t


def marginal(cx):
    q, r = marg(cx)
    me = r.p(0)
    f = lambda i: fld(me, 0, i)
    n = seqlen(f(q.sentence))
    N, bn, en = f(q.nodes), f(q.begin_nodes), f(q.end_nodes)
    sc = lambda i: fld(at(N, i), 0, q.n_score)
    z = r.ret
    if z.op == 'ite':
        zs = [(g, x) for g, x in leaves(z) if not proves(OR(NOT(g), lt(n, K1)))]
        for g, x in zs:
            if x.op == 'kf' and not murky(g) and not find(g, lambda y: y.op == 'done' or y is N):
                raise Violation(f'the normalisation constant is {x.args[0]} when {show(g, 6)[:200]}', r.where)
        if len(zs) == 1:
            z = zs[0][1]
    if z.op != 'at' or z.args[1] is not f(q.eos_idx) or z.args[0] not in r.I.finof:
        und(z)
        if z.op == 'at' and z.args[0] in r.I.finof:
            raise Violation(f'the normalisation constant is not the forward sum at the end: {show(z, 5)[:200]}', r.where)
        raise Undecided(f'the normalisation constant is not recognised: {show(z, 5)[:200]}')
    A = z.args[0]
    _, cs = contributions(r, r.mem(1))
    if len(cs) != 1:
        raise Undecided(f'{len(cs)} kinds of contributions')
    c = cs[0]
    und(*c.terms())
    if len(c.binders) == 1:
        # over the nodes themselves: all but the two markers
        (p, np), = c.binders
        ids = [x.args[1] for x in subterms(c.key) if x.op == 'at' and x.args[0] is N]
        if len(set(ids)) != 1 or c.key is not fld(at(N, ids[0]), 0, q.n_token_id):
            raise Undecided(f'contribution not recognised: {c.show()[:200]}')
        node = ids[0]
        k = sub(node, p)
        if k.op != 'k':
            raise Undecided(f'contribution not recognised: {c.show()[:200]}')
        marks = {f(q.bos_idx): K0, f(q.eos_idx): K1}      # as C26 shows
        req_(cx, r, TRUE, np, imax(K0, sub(seqlen(N), k)), 'the number of nodes counted')
        cond = subst_all(c.cond, marks)
        if not proves(OR(cond, lt(node, mk('k', 2)))):
            und(cond)
            raise Violation(f'some nodes do not contribute: only those with {show(c.cond, 6)[:200]}', r.where)
        if k.args[0] < 2 and not proves(OR(NOT(cond), NOT(lt(node, mk('k', 2))))):
            und(cond)
            raise Violation('a marker contributes', r.where)
        if k.args[0] > 2:
            raise Violation(f'the first {k.args[0]} nodes do not contribute', r.where)
    else:
        if c.cond is not TRUE and not proves(c.cond):
            raise Violation(f'some nodes do not contribute: {show(c.cond, 6)[:200]}', r.where)
        if len(c.binders) != 2:
            raise Undecided(f'contribution not recognised: {c.show()[:200]}')
        (p, np), (i, ni) = c.binders
        node = at(at(bn, p), i)
        # every position but the last, where only the end marker begins
        req_(cx, r, TRUE, sized(np, f, q), n, 'the number of positions whose nodes are counted')
        req_(cx, r, TRUE, ni, seqlen(at(bn, p)), 'the number of nodes counted at a position')
        req_(cx, r, TRUE, c.key, fld(at(N, node), 0, q.n_token_id), 'the token a probability is counted for')
    w = c.weight
    B = {x.args[0] for x in subterms(w) if x.op == 'at' and x.args[1] is node and x.args[0] in r.I.finof and x.args[0] is not A}
    if len(B) != 1:
        und(w)
        raise Violation(f'the probability of a node is not computed from the forward and the backward sum: {show(w, 6)[:300]}', r.where)
    B = B.pop()
    req_(cx, r, TRUE, w, mk('f_exp', fsub(fadd(fadd(at(A, node), sc(node)), at(B, node)), z)), 'the probability of a node')
    for nm, V, start_, to, fro, desc_ in (('forward', A, f(q.bos_idx), bn, en, False), ('backward', B, f(q.eos_idx), en, bn, True)):
        skips = []
        ls, u = nest(r, V, nm, skips)
        O, od = ls[0]
        init = od['init']
        ok_ = False
        for inf in (KF(float('-inf')),):
            if veq(init, vset(rep_(inf, seqlen(N)), start_, KF(0.0))):
                ok_ = True
        if not ok_:
            und(init)
            j = J('node')
            x = at(init, j)
            req_(cx, r, AND(lt(j, seqlen(N)), NOT(eq(j, start_))), x, KF(float('-inf')), f'the {nm} sum of a node not yet reached')
            req_(cx, r, lt(start_, seqlen(N)), at(init, start_), KF(0.0), f'the {nm} sum of the marker')
        req_(cx, r, TRUE, sized(O.n, f, q), add(n, K1), f'the number of positions in the {nm} pass')
        pos = None
        cand = [O.j, sub(n, O.j)]
        want = cand[1] if desc_ else cand[0]
        T, Fr = at(to, want), at(fro, want)
        if len(ls) == 1 or any(l.n is None for l, _ in ls):
            raise Undecided(f'{nm} pass not recognised')
        ns = [l.n for l, _ in ls[1:]]
        used = [x for x in ns if veq(x, seqlen(T)) or veq(x, seqlen(Fr))]
        if len(used) != len(ns):
            und(*ns)
            other = cand[0] if desc_ else cand[1]
            if any(veq(x, seqlen(at(y, other))) for x in ns for y in (to, fro)):
                raise Violation(f'the {nm} pass goes through the positions in the wrong direction', r.where)
            raise Violation(f'the {nm} pass goes over {", ".join(show(x, 5)[:100] for x in ns)}', r.where)
        phi = ls[-1][1]['phi']
        if u.op != 'vset' or u.args[0] is not phi:
            und(u)
            raise Undecided(f'{nm} pass: the update is not recognised: {show(u, 4)[:200]}')
        idx, val = u.args[1], u.args[2]
        tl = [l for l, _ in ls[1:] if veq(l.n, seqlen(T)) and at(T, l.j) is idx]
        if len(tl) != 1:
            und(idx)
            raise Violation(f'the {nm} pass updates {show(idx, 5)[:100]}', r.where)
        whole = None
        if len(ls) == 3:
            fl_ = [l for l, _ in ls[1:] if l is not tl[0]][0]
            acc = at(phi, idx)
            arr = phi
        elif len(ls) == 2 and val in r.I.finof:
            fl_ = r.loops[r.I.finof[val][0]]
            d2 = fl_.vars[r.I.finof[val][1]]
            acc, arr = d2['phi'], phi
            if not (d2['init'] is KF(float('-inf')) or d2['init'] is at(phi, idx)):
                und(d2['init'])
                raise Violation(f'the {nm} sum of a node starts from {show(d2["init"], 4)[:100]}', r.where)
            whole = val
            val = d2['next']
            if d2['phi'].op != 'sym' or not any(s_[0] == tl[0].lid for s_ in fl_.stack):
                # added up once for all: the sums at this end do not change meanwhile
                val = LP.replace(val, od['phi'], phi)
        else:
            und(val)
            raise Undecided(f'{nm} pass: the update is not recognised: {show(val, 4)[:200]}')
        for l, g in skips:
            if not proves(OR(NOT(g), lt(seqlen(Fr), K1), lt(seqlen(T), K1), NOT(flt(KF(float('-inf')), whole)) if whole is not None else FALSE)):
                und(g)
                raise Violation(f'the {nm} pass leaves out positions with {show(g, 5)[:200]}', r.where)
        if not veq(fl_.n, seqlen(Fr)):
            und(fl_.n)
            raise Violation(f'the {nm} pass adds up over {show(fl_.n, 5)[:100]}', r.where)
        src = at(Fr, fl_.j)
        step = fadd(sc(src), at(arr, src))
        if val.op != 'lse':
            und(val)
            raise Undecided(f'{nm} pass: the sum is not recognised: {show(val, 5)[:200]}')
        a, b = val.args[0], val.args[1]
        ini = val.args[2] if len(val.args) > 2 else FALSE
        sel = NOT(eq(src, idx))
        req_(cx, r, sel, a, acc, f'{nm} pass: what was added up so far')
        req_(cx, r, sel, b, step, f'{nm} pass: the path through a neighbour')
        firsts = [eq(src, at(Fr, K0)), lt(fl_.j, K1), FALSE]
        if not any(IFF(ini, x) is TRUE or proves(OR(NOT(lt(fl_.j, fl_.n)), IFF(ini, x))) for x in firsts):
            und(ini)
            raise Violation(f'{nm} pass: the sum starts anew when {show(ini, 5)[:200]}', r.where)
    return 'forward and backward over all positions and pairs of neighbours; every node contributes exp(forward + score + backward - total)'


def rep_(x, n):
    return mk('rep', x, n)


# ------------------------------------------------------------------ n-best
def vit_anchor(q):
    def f(I, a, st, fr, e):
        cur = I.deep(st, a[0])
        I.store(st, I.proj(a[0], ('f', 0, q.nodes, LAT, q.nlat)), mk('vit', fld(cur, 0, q.nodes)), fr, e)
        I.event('call', st, fr, e, name='viterbi', args=[cur], ret=None)
        return mk('best', cur)
    return f


def nb(cx):
    if 'nb' in cx.cache:
        return cx.cache['nb']
    q = fields(cx)
    r = cx.run(cx.method(LAT, 'nbest', crate=LIB), None, extra={LAT + "::<'a>::viterbi": vit_anchor(q)}, tag='vit')
    cx.clear(r)
    cx.cache['nb'] = (q, r)
    return q, r


def nbest(cx):
    q, r = nb(cx)
    me, want = r.p(0), r.p(1)
    f = lambda i: fld(me, 0, i)
    N0 = f(q.nodes)
    H = {n: cx.fnamed(HYP, n) for n in ('node_idx', 'next', 'fx', 'gx')}
    h = lambda t, n: fld(t, 0, H[n])

    def plain(t):
        """the search for the best path changes neither scores nor positions"""
        for x in [x for x in subterms(t) if x.op == 'fld' and x.args[0].op == 'at' and x.args[0].args[0].op == 'vit' and
                  x.args[2] in (q.n_pos, q.n_token_id, q.n_token_len, q.n_score) and not any(b.op == 'bv' for b in x.fv)]:
            t = LP.replace(t, x, fld(at(x.args[0].args[0].args[0], x.args[0].args[1]), 0, x.args[2]))
        return t
    loops = [(l, loc, d) for l in r.loops.values() if l.n is None and not l.stack for loc, d in l.vars.items() if find(d['next'], lambda x: x.op in ('hmax', 'hrest'))]
    heaps = [(l, loc, d) for l, loc, d in loops if find(d['next'], lambda x: x.op == 'hrest') and d['init'].op in ('one', 'cat')]
    if len(heaps) != 1:
        raise Undecided(f'{r.path}: {len(heaps)} agendas')
    L, hl, hd = heaps[0]
    A = hd['phi']
    top = mk('hmax', A)
    # the start
    i0 = hd['init']
    if i0.op != 'one':
        und(i0)
        raise Undecided('the agenda starts with several hypotheses')
    x = i0.args[0]
    eos = f(q.eos_idx)
    if h(x, 'node_idx') is not eos and h(x, 'node_idx') is not K1:
        und(x)
        raise Violation(f'the search starts at {show(h(x, "node_idx"), 4)[:100]} instead of the end', r.where)
    req_(cx, r, TRUE, h(x, 'next'), NONE, 'what follows the end')
    sc = lambda i: fld(at(N0, i), 0, q.n_score)
    g0 = plain(h(x, 'gx'))
    if g0 is not KF(0.0) and g0 is not sc(eos) and g0 is not sc(K1):
        und(g0)
        raise Violation(f'the score of the end is {show(g0, 5)[:100]}', r.where)
    tn = h(top, 'node_idx')
    tid = fld(at(N0, tn), 0, q.n_token_id)
    bid = fld(at(N0, f(q.bos_idx)), 0, q.n_token_id)
    sid = AND(le(tid, bid), le(bid, tid))
    isb = OR(eq(tn, f(q.bos_idx)), sid)
    pos = fld(at(N0, tn), 0, q.n_pos)
    ends = at(f(q.end_nodes), pos)
    some_ = lt(K0, seqlen(A))
    n = 0
    nx = restrict(hd['next'], AND(L.endpc, some_))
    seen_exp = False
    for g, t in leaves(nx):
        c = AND(plain(g), some_)
        if c is FALSE or proves(NOT(c)):
            continue
        t0 = t
        if t in r.I.finof:
            lid, loc = r.I.finof[t]
            t = shrunk(cx, r, r.loops[lid], loc, want, q)
        t = restrict(plain(t), c)
        if proves(OR(NOT(c), plain(isb))):
            if t is mk('hrest', A):
                continue
            und(t)
            raise Violation('a finished hypothesis changes the agenda', r.where)
        ps = t.args if t.op == 'cat' else (t,)
        if ps[0] is not mk('hrest', A):
            und(t)
            raise Violation(f'hypotheses are lost: the agenda becomes {show(t, 5)[:200]}', r.where)
        es = [e for p in ps[1:] for e in contents(p, c)]
        if not es:
            und(t)
            raise Violation('a hypothesis is not expanded', r.where)
        for e in es:
            n += 1
            pc = AND(c, e.may, lt(e.j, e.n))
            req_(cx, r, pc, e.n, seqlen(ends), 'the number of predecessors expanded')
            l = at(ends, e.j)
            req_(cx, r, pc, plain(h(e.el, 'node_idx')), l, 'the predecessor')
            req_(cx, r, pc, h(e.el, 'next'), some(top), 'what follows a predecessor')
            req_(cx, r, pc, plain(h(e.el, 'gx')), fadd(sc(l), h(top, 'gx')), 'the score of a hypothesis')
            bt = [x for x in subterms(h(e.el, 'fx')) if x.op == 'fld' and x.args[2] == q.n_backtrack_score]
            if bt and bt[0].args[0].op == 'at' and bt[0].args[0].args[0].op != 'vit':
                und(bt[0])
                raise Violation('the estimate uses path scores from before the search for the best path', r.where)
            req_(cx, r, pc, plain(h(e.el, 'fx')), fadd(fld(at(mk('vit', N0), l), 0, q.n_backtrack_score), h(top, 'gx')), 'the estimate of a hypothesis')
            skip = AND(c, NOT(e.must), lt(e.j, e.n))
            dead = AND(NOT(eq(l, f(q.bos_idx))), NOT(is_some(fld(at(mk('vit', N0), l), 0, q.n_prev))))
            if not proves(OR(NOT(skip), dead)):
                und(skip)
                raise Violation(f'a predecessor is passed over: {show(skip, 6)[:200]}', r.where)
        seen_exp = True
    if not seen_exp:
        raise Undecided('no expansion found')
    # finished hypotheses
    outs = [(loc, d) for loc, d in L.vars.items() if d['init'] is EMPTY and loc != hl]
    if len(outs) != 1:
        raise Undecided(f'{len(outs)} result lists')
    od = outs[0][1]
    m = 0
    for g, t in spread(plain(restrict(od['next'], AND(L.endpc, some_)))):
        c = AND(g, some_)
        if c is FALSE:
            continue
        xs = flat(t)
        if xs[0] is not od['phi']:
            und(t)
            raise Violation(f'results are lost: {show(t, 5)[:200]}', r.where)
        if len(xs) == 1:
            if not proves(OR(NOT(c), NOT(eq(tn, f(q.bos_idx))), NOT(sid))):
                und(c)
                raise Violation(f'a finished hypothesis is not returned: {show(c, 6)[:200]}', r.where)
            continue
        if not proves(OR(NOT(c), isb)):
            und(c)
            raise Violation('an unfinished hypothesis is returned', r.where)
        if len(xs) != 2 or xs[1].op != 'one':
            raise Undecided('the result is not recognised')
        chain(cx, r, xs[1].args[0], top, L, h, H)
        m += 1
    for key, g, st, val in L.exits:
        g = plain(g)
        if key[0] == 'ret':
            full = proves(OR(NOT(g), le(want, add(seqlen(od['phi']), K1))))
            if not full:
                und(g)
                raise Violation(f'the search stops early: {show(g, 6)[:200]}', r.where)
        elif not proves(OR(NOT(g), NOT(some_), le(want, seqlen(od['phi'])), le(want, seqlen(restrict(LP.getv(r.I, st, outs[0][0]), g))))):
            und(g)
            raise Violation(f'the search stops early: {show(g, 6)[:200]}', r.where)
    if not m:
        raise Undecided('no result is collected')
    # one or none
    small = 0
    for g, t in leaves(r.ret):
        if proves(OR(NOT(g), lt(want, K1))):
            small += 1
            req_(cx, r, g, t, EMPTY, 'the result when no hypotheses are wanted')
        elif proves(OR(NOT(g), lt(want, mk('k', 2)))):
            small += 1
            if t.op != 'one' or t.args[0].op != 'best':
                und(t)
                raise Violation(f'the result when one hypothesis is wanted is {show(t, 5)[:200]}', r.where)
        elif t is EMPTY and not proves(OR(NOT(g), lt(seqlen(A), K1))):
            raise Violation(f'nothing is returned when {show(g, 6)[:200]}', r.where)
        elif t.op == 'one' and t.args[0].op == 'best':
            und(g)
            raise Violation(f'only the best segmentation is returned when {show(g, 6)[:200]}', r.where)
    return f'{n} expansion forms, {m} forms of results'


def spread(t):
    """leaves of a list, also below concatenations"""
    out = []
    for g, x in leaves(t):
        if x.op != 'cat':
            out.append((g, x))
            continue
        acc = [(g, EMPTY)]
        for p in x.args:
            acc = [(AND(h, k), cat(a, y)) for h, a in acc for k, y in spread(p) if AND(h, k) is not FALSE]
        out += acc
    return out


def flat(t):
    return list(t.args) if t.op == 'cat' else [t]


def shrunk(cx, r, l, loc, want, q):
    """an agenda cut to its best entries; returns the agenda before"""
    d = l.vars[loc]
    other = [(k, x) for k, x in l.vars.items() if find(x['next'], lambda y: y.op == 'hrest')]
    if len(other) != 1:
        raise Undecided('how the agenda is cut is not recognised')
    od = other[0][1]
    more = lt(K0, seqlen(od['phi']))
    if restrict(od['next'], more) is not mk('hrest', od['phi']):
        raise Undecided('how the agenda is cut is not recognised')
    nx = restrict(d['next'], more)
    xs = flat(nx)
    if len(xs) != 2 or xs[0] is not d['phi'] or xs[1] is not one(mk('hmax', od['phi'])) or d['init'] is not EMPTY:
        und(nx)
        raise Undecided('how the agenda is cut is not recognised')
    if l.n is None or not proves(OR(lt(want, mk('k', 2)), le(K1, l.n))):
        if l.n is not None:
            und(l.n)
            raise Violation(f'the agenda can be emptied: {show(l.n, 5)[:100]} entries are kept', r.where)
        raise Undecided('how the agenda is cut is not recognised')
    return od['init']


def chain(cx, r, lst, top, L, h, H):
    """the nodes of a finished hypothesis: from the one after the start marker to the one before the end marker"""
    cl = [(l, loc, d) for l in r.loops.values() if any(s[0] == L.lid for s in l.stack) and l.n is None for loc, d in l.vars.items()
          if d['phi'] is lst or d['final'] is lst]
    if len(cl) != 1:
        und(lst)
        raise Undecided(f'how a hypothesis is read is not recognised: {show(lst, 5)[:200]}')
    l, loc, d = cl[0]
    req_(cx, r, TRUE, d['init'], EMPTY, 'the start of a result')
    xs = flat(restrict(d['next'], l.endpc))
    if len(xs) != 2 or xs[0] is not d['phi'] or xs[1].op != 'one':
        raise Undecided('how a hypothesis is read is not recognised')
    X = xs[1].args[0]
    if X.op != 'fld' or X.args[2] != H['node_idx']:
        und(X)
        raise Violation(f'a result holds {show(X, 5)[:100]}', r.where)
    cur = X.args[0]
    st = {x['phi']: x for x in l.vars.values()}
    sub_ = lambda t, k: subst_all(t, {p: x[k] for p, x in st.items()})
    nxt = lambda t: fld(h(t, 'next'), 1, 0)
    a, b = sub_(cur, 'init'), sub_(cur, 'next')
    req_(cx, r, is_some(h(top, 'next')), a, nxt(top), 'the first node of a result')
    req_(cx, r, AND(l.endpc, is_some(h(cur, 'next'))), b, nxt(cur), 'the next node of a result')
    for key, g, s, val in l.exits:
        stop = NOT(is_some(h(cur, 'next')))
        if not proves(OR(NOT(g), stop)):
            und(g)
            raise Violation(f'a result is cut off when {show(g, 5)[:200]}', r.where)
    if not proves(OR(NOT(l.endpc), is_some(h(cur, 'next')))):
        und(l.endpc)
        raise Violation('the end marker is part of a result', r.where)


def heap(cx):
    n = 0
    for m, tr in (('cmp', 'Ord'), ('partial_cmp', 'PartialOrd')):
        b = cx.method(HYP, m, trait=tr, crate=LIB)
        r = cx.run(b, None)
        cx.clear(r)
        fx = cx.fnamed(HYP, 'fx')
        a, o = (fld(r.p(i), 0, fx) for i in (0, 1))
        t = r.ret
        if m == 'partial_cmp':
            t2 = []
            for g, x in leaves(t):
                if x is NONE:
                    continue
                t2.append((g, fld(x, 1, 0)))
        else:
            t2 = list(leaves(t))
        for lt_, name_ in ((AND(flt(a, o), NOT(flt(o, a))), 'Less'), (AND(flt(o, a), NOT(flt(a, o))), 'Greater')):
            hit = [x for g, x in t2 for x in [restrict(x, AND(lt_, g))] if AND(lt_, g) is not FALSE]
            for x in hit:
                n += 1
                und(x)
                s = show(x)
                if name_ not in s and not find(x, lambda y: y.op in ('cmp', 'fcmp') and y.args[0] is a and y.args[1] is o):
                    if find(x, lambda y: y.op in ('cmp', 'fcmp')) and not find(x, lambda y: y.op in ('cmp', 'fcmp') and y.args[0] is o and y.args[1] is a):
                        raise Undecided(f'comparison not recognised: {s[:200]}')
                    raise Violation(f'a {"worse" if name_ == "Less" else "better"} hypothesis counts as {s[:100]}: the best does not come first', r.where)
    return f'{n} cases of two comparisons'
