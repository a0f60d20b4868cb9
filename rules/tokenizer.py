"""C05 C06 C07 C09 C10 C11: the tokenizer's public calls."""
import copy

import loops

from lib import *
from empties import unpeel


def oob(cx, x):
    E = 'tokengeex::Error'
    return agg(E, cx.vidx(E, 'TokenIdOutOfBounds'), (x,))


# ------------------------------------------------------------------ C05
def c05(cx):
    F = fieldsof(cx)

    def model_decode():
        r = cx.model('decode')
        m, ids = r.p(0), r.p(1)
        V = seqlen(F.v(m))
        bad = lambda j: le(V, at(ids, j))
        n = seqlen(ids)
        E, f = exists(n, bad), first(n, bad)
        spec = ite(E, err(oob(cx, at(ids, f))), ok(mk('lossy', concat(n, lambda j: F.val(at(F.v(m), at(ids, j)))))))
        cx.same(r.ret, spec, 'result of decoding a list of base ids', r)
        cx.clear(r)
        return 'normal form equal to: out-of-bounds error for the first unknown id, else the lossy text of the values in order'
    cx.ob('model-decode', 'Model::decode returns Err(TokenIdOutOfBounds(first id >= |vocab|)) or the concatenated values', model_decode)
    cx.ob('model-decode-total', 'no index or arithmetic in Model::decode can panic', lambda: panics(cx, cx.model('decode')))

    def base():
        r = cx.tok('decode')
        t, ids, incl = r.p(0), r.p(1), r.p(2)
        m = fld(t, 0, F.model)
        V = seqlen(F.v(m))
        sp = fld(t, 0, F.specials)
        procs = fld(t, 0, F.procs)
        md = lambda s: mk('m_decode', m, s)
        text = lambda s: foldseq(procs, fld(md(s), 0, 0), lambda p, y: mk('post', p, y), True)
        return locals()

    def shape():
        """the loop takes the ids up to the next special one at a time"""
        q = base()
        r, ids, V, sp = q['r'], q['ids'], q['V'], q['sp']
        L = mainloop(r, counted=False)
        for d in L.vars.values():
            if d['init'].op in ('bc', 'dedup', 'sorted', 'rev') and ids in set(subterms(d['init'])) and find(d['next'], lambda y: y.op == 'slice' and y.args[0] is d['phi']):
                why = murky(d['init'])
                if not why or 'loop' in why:
                    raise Violation(f'{r.path}: not the ids given are decoded but {show(d["init"], 6)[:200]}', r.where)
        vin = role(L, 'remaining ids', lambda d: d['init'] is ids)
        out = role(L, 'output text', lambda d: d['init'] is EMPTY)
        x, o = phi(vin), phi(out)
        n = seqlen(x)
        isp = lambda j: le(V, at(x, j))
        E, i = exists(n, isp), first(n, isp)
        pre = slice_(x, K0, i)
        special = at(sp, sub(at(x, i), V))
        return {**q, **locals()}

    def byid():
        """the loop looks at one id at a time and keeps the ones whose text is still to come"""
        q = base()
        r, ids, V, sp = q['r'], q['ids'], q['V'], q['sp']
        L = mainloop(r, lambda l: l.n is seqlen(ids))
        y = at(ids, L.j)
        wait = [d for d in L.vars.values() if d['init'] is EMPTY and find(d['next'], lambda t: t.op == 'one' and t.args[0] is y)]
        start = [d for d in L.vars.values() if d['init'] is K0 and find(d['next'], lambda t: t is add(L.j, K1))]
        if len(wait) + len(start) != 1:
            raise Undecided(f'{r.path}: the ids whose text is still to come are not recognised')
        w = (wait or start)[0]
        out = role(L, 'output text', lambda d: d['init'] is EMPTY and d is not w)
        o = phi(out)
        E = le(V, y)
        special = at(sp, sub(y, V))
        if wait:
            pre, rest, reset, keep = phi(w), w['final'], EMPTY, cat(phi(w), one(y))
        else:
            pre, rest, reset, keep = slice_(ids, phi(w), L.j), slice_(ids, w['final'], None), add(L.j, K1), phi(w)
        return {**q, **locals()}

    def agree(q, got, exp, what, pc):
        """equal, whether or not there is text before the special id (an empty piece has an empty text)"""
        r, pre, md, text = (q[k] for k in ('r', 'pre', 'md', 'text'))
        good = is_ok(md(pre))

        def posted(t):
            for x in find(t, lambda y: y.op == 'fix' and len(y.args[2]) == 2):
                if x is foldseq(q['procs'], x.args[2][1], lambda p, y: mk('post', p, y), True):
                    t = loops.replace(t, x, mk('posted', q['procs'], x.args[2][1]))
            return t
        got, exp = posted(got), posted(exp)
        cx.same(got, exp, what, r, AND(pc, good, lt(K0, seqlen(pre))))

        def empty(t):
            t = loops.replace(loops.replace(t, pre, EMPTY), md(EMPTY), ok(EMPTY))
            return loops.replace(t, mk('posted', q['procs'], EMPTY), EMPTY)
        cx.same(empty(got), empty(exp), what, r, empty(pc))

    def which():
        try:
            return shape(), False
        except Undecided as e:
            try:
                return byid(), True
            except Undecided as e2:
                raise e2 if 'candidate main loops' in str(e) else e

    def around():
        """paths that leave out the loop over the special ids"""
        q, single = which()
        r, L, md, text, ids, V, sp = (q[k] for k in ('r', 'L', 'md', 'text', 'ids', 'V', 'sp'))
        n = 0
        k = J('sk')
        hit = AND(lt(k, seqlen(ids)), le(V, at(ids, k)))
        none = lt(seqlen(ids), K1)
        for g, l in leaves(restrict(r.ret, NOT(L.pc))):
            g = AND(g, NOT(L.pc))
            if g is FALSE or proves(NOT(g)):
                continue
            n += 1
            if proves(OR(NOT(g), none)) and veq(l, ok(EMPTY), g):
                continue
            h = AND(g, NOT(none), NOT(lt(seqlen(sp), K1)))
            for x in find(h, lambda x: x.op == 'ex' and x.args[2][0] is seqlen(ids)):
                h = loops.replace(h, x, OR(TT.open_(x, k), x))
            if not proves(NOT(AND(h, hit))):
                why = murky(g)
                if why:
                    raise Undecided(why)
                raise Violation(f'special ids are not looked for when {show(g, 10)[:400]}', r.where)
            whole = md(ids)
            if proves(OR(NOT(g), lt(seqlen(q['procs']), K1))) and veq(l, whole, g):
                continue
            agree({**q, 'pre': ids}, l, ite(is_ok(whole), ok(text(ids)), err(fld(whole, 1, 0))), 'result of decoding without special ids', g)
        return f'{n} paths without the loop over the special ids, taken only without such ids'

    def step():
        q, single = which()
        r, L, o, E, md, text, pre = (q[k] for k in ('r', 'L', 'o', 'E', 'md', 'text', 'pre'))
        known = lambda y: lt(sub(y, q['V']), seqlen(q['sp']))
        if single:
            y = q['y']
            here = AND(L.pc, lt(L.j, L.n))
            go = AND(here, OR(NOT(E), known(y)))
            agree(q, L.endpc, go, 'condition to continue after an id', here)
            agree(q, q['w']['next'], ite(E, q['reset'], q['keep']), 'ids left to decode', go)
            agree(q, q['out']['next'], cat(o, ite(E, cat(text(pre), ite(q['incl'], q['special'], EMPTY)), EMPTY)), 'text appended for an id', go)
            return 'each base id waits in order; a special id appends the text of the waiting ids and its own'
        x, i = q['x'], q['i']
        E = AND(L.pc, E)
        go = AND(E, known(at(x, i)))
        agree(q, L.endpc, go, 'condition to continue after a special id', E)
        cx.same(restrict(L.endpc, NOT(E)), FALSE, 'condition to continue without a special id', r, NOT(E))
        agree(q, q['vin']['next'], slice_(x, add(i, K1), None), 'ids left after a special id', go)
        agree(q, q['out']['next'], cat(o, text(pre), ite(q['incl'], q['special'], EMPTY)), 'text appended for a special id and the ids before it', go)
        return 'one iteration consumes the ids up to and including the first special id and appends their text'

    def ends(q, got, o, rest, pc):
        """the result when the ids left over hold no special one"""
        md, text = q['md'], q['text']
        q = {**q, 'pre': rest}
        agree(q, got, ok(cat(o, text(rest))), 'result of decoding', pc)

    def stop():
        q, single = which()
        r, L, o, E, md, text, pre = (q[k] for k in ('r', 'L', 'o', 'E', 'md', 'text', 'pre'))
        known = lambda y: lt(sub(y, q['V']), seqlen(q['sp']))
        if single:
            D = [x for x in find(r.ret, lambda t: t.op == 'done' and t.args[0] == L.lid)]
            D = AND(L.pc, OR(*[atom(x) for x in D]) if D else TRUE)
            got = restrict(r.ret, D)
            end, left = q['out']['final'], q['w']['final']

            def names(t):
                return loops.replace(loops.replace(t, end, sym('out')), left, sym('left'))
            ends(q, names(got), names(end), names(q['rest']), names(D))
            here = {L.j: sym('at'), o: sym('sofar')}
            if phi(q['w']).op == 'sym':
                here[phi(q['w'])] = sym('waiting')
            q3 = {**q, 'pre': subst(pre, here)}
            for key, g, st, val in L.exits:
                agree(q3, names(subst(r.ret, here)), err(oob(cx, subst(q['y'], here))), 'result for an id beyond the vocabulary', names(subst(AND(L.pc, NOT(D), g), here)))
            cx.clear(r)
            return 'errors only for ids past base and special tokens, otherwise the accumulated text and that of the waiting ids'
        x, i = q['x'], q['i']
        short = {x: sym('x'), o: sym('o')}
        q2 = {**q, **{k: subst(q[k], short) for k in ('pre',)}}
        got = restrict(subst(r.ret, short), L.pc)
        E2, x2, o2 = subst(E, short), sym('x'), sym('o')
        y2 = subst(at(x, i), short)
        agree(q2, got, err(oob(cx, y2)), 'result for an id beyond the vocabulary', AND(L.pc, E2, NOT(known(y2))))
        ends(q2, got, o2, x2, AND(L.pc, NOT(E2)))
        cx.clear(r)
        return 'errors only for ids past base and special tokens, otherwise the accumulated text'
    cx.ob('decode-step', 'Tokenizer::decode: text before a special id is decoded, post-processed in reverse order and appended, then the special text iff requested', step)
    cx.ob('decode-end', 'Tokenizer::decode: unknown ids give TokenIdOutOfBounds(id); the rest after the last special id is decoded and appended', stop)
    cx.ob('decode-whole', 'Tokenizer::decode looks for special ids unless there can be none', around)
    cx.ob('decode-total', 'no index, slice or subtraction in Tokenizer::decode can panic', lambda: panics(cx, cx.tok('decode')))


# ------------------------------------------------------------------ C06
def c06(cx):
    F = fieldsof(cx)

    def parts_(name):
        r = cx.tok(name)
        t = r.p(0)
        m = fld(t, 0, F.model)
        return r, t, m, F.v(m), seqlen(F.v(m)), fld(t, 0, F.specials), fld(t, 0, F.smap), r.p(1) if len(r.body['params']) > 1 else None

    def eqspec(name, f, what):
        def go():
            r, *a = parts_(name)
            s = f(*a)
            got = listmap(r.ret, a[4], a[5])
            if isinstance(s, tuple):
                if not any(veq(got, x) for x in s):
                    cx.same(got, s[0], what, r)
            else:
                cx.same(got, s, what, r)
            cx.clear(r)
            return show(r.ret, 10)[:300]
        cx.ob(name, what, go)
        cx.ob(name + '-total', f'{name} cannot panic', lambda: panics(cx, cx.tok(name)))

    B = lambda v, V, id_: lt(id_, V)
    S = lambda V, sp, id_: AND(le(V, id_), lt(sub(id_, V), seqlen(sp)))
    eqspec('is_base', lambda t, m, v, V, sp, sm, i: lt(i, V), 'an id is a base token iff it is below the base vocabulary size')
    eqspec('is_special', lambda t, m, v, V, sp, sm, i: S(V, sp, i), 'an id is special iff it lies in the range after the base vocabulary')
    eqspec('id_to_base_token', lambda t, m, v, V, sp, sm, i: ite(lt(i, V), some(at(v, i)), NONE), 'the base token of an id')
    eqspec('id_to_special_token', lambda t, m, v, V, sp, sm, i: ite(S(V, sp, i), some(at(sp, sub(i, V))), NONE), 'the special token of an id')
    eqspec('id_to_token', lambda t, m, v, V, sp, sm, i: ite(lt(i, V), some(F.val(at(v, i))), ite(S(V, sp, i), some(at(sp, sub(i, V))), NONE)), 'the token of an id')

    def bt(t, m, v, V, sp, sm, k):
        x = fld(m, 0, F.t2i)
        return ite(has(x, k), some(mget(x, k)), NONE)

    def stid(t, m, v, V, sp, sm, k):
        return ite(has(sm, k), some(add(mget(sm, k), V)), NONE)
    eqspec('base_token_to_id', bt, 'the id of a base token is the one the map records')
    eqspec('special_token_to_id', stid, 'the id of a special token is base size + registration index')

    def tti(t, m, v, V, sp, sm, k):
        x = fld(m, 0, F.t2i)
        b = some(mget(x, k))
        s = some(add(mget(sm, k), V))
        hs = AND(atom(mk('isutf8', k)), has(sm, k))
        return (ite(has(x, k), b, ite(hs, s, NONE)), ite(hs, s, ite(has(x, k), b, NONE)))
    eqspec('token_to_id', tti, 'the id of a token: base or special')
    eqspec('vocab_size', lambda t, m, v, V, sp, sm, _: add(V, seqlen(sp)), 'the vocabulary size counts base and special tokens')
    eqspec('base_vocab_size', lambda t, m, v, V, sp, sm, _: V, 'the base vocabulary size')
    eqspec('special_vocab_size', lambda t, m, v, V, sp, sm, _: seqlen(sp), 'the number of special tokens')

    def rel(a, b, f, what):
        def go():
            x, y = cx.tok(a), cx.tok(b)
            px = {x.p(i): sym('arg', i) for i in range(2)}
            py = {y.p(i): sym('arg', i) for i in range(2)}
            for i in range(2):
                TT.declare_nonneg(sym('arg', i)) if i else None
            u, w = subst(x.ret, px), subst(y.ret, py)
            cx.same(u, f(w), what, x)
            return 'equal normal forms'
        cx.ob(f'{a}~{b}', what, go)
    rel('is_base', 'id_to_base_token', is_some, 'is_base(id) iff id_to_base_token(id) is some')
    rel('is_special', 'id_to_special_token', is_some, 'is_special(id) iff id_to_special_token(id) is some')

    def disjoint():
        a, b = cx.tok('is_base'), cx.tok('is_special')
        for i in range(2):
            TT.declare_nonneg(sym('arg', 1))
        u = subst(a.ret, {a.p(i): sym('arg', i) for i in range(2)})
        w = subst(b.ret, {b.p(i): sym('arg', i) for i in range(2)})
        cx.holds(NOT(AND(u, w)), 'is_base and is_special exclude each other', b)
        return 'conjunction is false'
    cx.ob('disjoint', 'no id is base and special', disjoint)


# ------------------------------------------------------------------ C07
def c07(cx):
    F = fieldsof(cx)

    def registration():
        r = cx.tok('add_special_tokens')
        t = r.p(0)
        cx.clear(r)
        L = mainloop(r, lambda l: any(d['init'] is fld(t, 0, F.smap) for d in l.vars.values()))
        li = role(L, 'special token list', lambda d: d['init'] is fld(t, 0, F.specials))
        mp = role(L, 'special token map', lambda d: d['init'] is fld(t, 0, F.smap))
        tok = at(mk('items', r.p(1)), L.j)
        l, m = phi(li), phi(mp)
        disp = {}
        h = has(m, tok)
        bind_ = {l: sym('list'), m: sym('map'), L.j: sym('i')}
        for s in bind_.values():
            pass
        S = lambda x: plain(subst(x, bind_))
        cx.must(L.n is seqlen(mk('items', r.p(1))) or murky(L.n), 'every given token is considered', r)
        cx.same(S(L.endpc), S(lt(L.j, L.n)), 'no given token is skipped', r) if False else None
        cx.same(S(li['next']), S(ite(h, l, cat(l, one(tok)))), 'special token list after a registration', r)
        cx.same(S(mp['next']), S(ite(h, m, mset(m, tok, seqlen(l)))), 'special token map after a registration', r)
        cx.must(not L.exits, 'registration does not stop early', r)
        end = r.mem(0)
        cx.same(fld(end, 0, F.model), fld(t, 0, F.model), 'model after registering special tokens', r)
        cx.same(fld(end, 0, F.procs), fld(t, 0, F.procs), 'processors after registering special tokens', r)
        cx.same(fld(end, 0, F.specials), li['final'], 'final list', r)
        cx.same(fld(end, 0, F.smap), mp['final'], 'final map', r)
        return 'list and map change together: a new token gets index |list|, a known one changes nothing'
    cx.ob('registration', 'add_special_tokens appends each unknown token and maps it to its index; known tokens change nothing', registration)

    def fresh():
        r = cx.tok('new', extra={'tokengeex::tokenizer::Tokenizer::add_special_tokens': addsp}, tag='new')
        cx.clear(r)
        t = r.ret
        reg = r.ev('reg')
        cx.must(len(reg) == 1, 'Tokenizer::new registers the given special tokens once', r)
        e = reg[0]
        s0 = e['cur']
        cx.same(fld(s0, 0, F.specials), EMPTY, 'special tokens before registration', r)
        cx.same(fld(s0, 0, F.smap), MEMPTY, 'special token map before registration', r)
        cx.same(e['toks'], r.p(2), 'registered tokens', r)
        cx.same(fld(s0, 0, F.model), r.p(0), 'model', r)
        cx.same(e['pc'], TRUE, 'registration condition', r)
        cx.same(t, e['ret'], 'constructed tokenizer', r)
        return 'starts empty, registers the given tokens'
    cx.ob('construction', 'Tokenizer::new starts with no special tokens and registers the given ones in order', fresh)

    def getters():
        r = cx.tok('special_tokens')
        cx.same(r.ret, fld(r.p(0), 0, F.specials), 'Tokenizer::special_tokens', r)
        r = cx.tok('into_inner')
        t = r.p(0)
        cx.same(fld(r.ret, 0, 2), fld(t, 0, F.specials), 'special tokens handed out by into_inner', r)
        return 'the registered tokens in order'
    cx.ob('getters', 'special_tokens and into_inner hand out the registered tokens in order', getters)

    def addbase():
        r = cx.tok('add_base_tokens')
        t, e = r.p(0), r.mem(0)
        for f, n in ((F.procs, 'processors'), (F.specials, 'special tokens'), (F.smap, 'special token map')):
            cx.same(fld(e, 0, f), fld(t, 0, f), f'{n} after adding base tokens', r)
        return 'special tokens untouched, ids follow the grown vocabulary'
    cx.ob('add-base', 'adding base tokens leaves the registration of special tokens as it was', addbase)

    def encode_ids():
        q = encode_shape(cx, F)
        r = q['r']
        V = seqlen(F.v(q['m']))
        n = 0
        for p in q['pieces']:
            if p['kind'] == 'special':
                n += 1
                cx.same(p['id'], add(V, mget(q['smap'], p['key'])), 'id pushed for a special token', r)
        cx.must(n > 0, 'special tokens are encoded to their ids', r)
        return f'{n} special pushes are base size + registration index of the piece'
    cx.ob('encode-ids', 'encoding maps a special piece to base size + registration index', encode_ids)
    for name, what, spec in (
        ('special_token_to_id', 'lookup of the id of a special token', lambda t, V, i: ite(has(fld(t, 0, F.smap), i), some(add(mget(fld(t, 0, F.smap), i), V)), NONE)),
        ('id_to_special_token', 'lookup of the special token of an id', lambda t, V, i: ite(AND(le(V, i), lt(sub(i, V), seqlen(fld(t, 0, F.specials)))), some(at(fld(t, 0, F.specials), sub(i, V))), NONE)),
        ('is_special', 'special id predicate', lambda t, V, i: AND(le(V, i), lt(sub(i, V), seqlen(fld(t, 0, F.specials)))))):
        def go(name=name, what=what, spec=spec):
            r = cx.tok(name)
            t = r.p(0)
            cx.same(listmap(r.ret, fld(t, 0, F.specials), fld(t, 0, F.smap)), spec(t, seqlen(F.v(fld(t, 0, F.model))), r.p(1)), what, r)
            return show(r.ret, 8)[:200]
        cx.ob(name, what + ' uses base size + registration index', go)

    def decode_special():
        # the text decoded for a special id is the token at id - base size
        r = cx.tok('decode')
        t, ids = r.p(0), r.p(1)
        V = seqlen(F.v(fld(t, 0, F.model)))
        sp = fld(t, 0, F.specials)
        xs = set()
        for l in r.loops.values():
            for d in l.vars.values():
                xs |= set(find(d['next'], lambda x: x.op == 'at' and x.args[0] is sp))
        xs |= set(find(r.ret, lambda x: x.op == 'at' and x.args[0] is sp))
        if not xs:
            raise Undecided('no special token text in the output')
        for x in xs:
            i = x.args[1]
            d = add(i, V)
            if d.op not in ('at', 'first', 'sym', 'fld'):
                if murky(subst(d, {s: sym('s') for s in d.fv})):
                    raise Undecided('index not recognised')
                raise Violation(f'special token text is taken at index {show(i)}, not id - base size', r.where)
        return f'{len(xs)} uses, index = id - base size'
    cx.ob('decode-index', 'decoding takes the text of a special id at id - base size', decode_special)

    def noother():
        """only registration and construction write the list or the map"""
        n = 0
        for h, b in cx.prog.bodies.items():
            d = cx.prog.defs[h]
            if b['crate'].id != LIB or d.get('name') in ('new', 'add_special_tokens', 'deserialize', 'clone', 'visit_map') or '{closure' in d['path']:
                continue
            st = b['crate'].types[d['self_ty']] if 'self_ty' in d else None
            if st is None or st.get('path') != 'tokengeex::tokenizer::Tokenizer':
                continue
            if not b['params']:
                continue
            pt = b['crate'].types[b['params'][0]['ty']]
            if not (pt['k'] == 'ref' and pt['mut']):
                continue
            r = cx.run(b, 'TOK')
            e = r.mem(0)
            n += 1
            s = sym('p', 0, 'self')
            if helper(cx, h):
                continue
            cx.same(fld(e, 0, F.specials), fld(r.p(0), 0, F.specials), f'special tokens after {d["name"]}', r)
            cx.same(fld(e, 0, F.smap), fld(r.p(0), 0, F.smap), f'special token map after {d["name"]}', r)
        return f'{n} other mutating methods analysed'
    cx.ob('writers', 'no other method of the tokenizer changes the special tokens', noother)


def listmap(t, sp, sm):
    """a search in the list of special tokens, in terms of their map: the two describe the same registration (C07)"""
    import loops
    for op in ('first', 'ex'):
        for x in sorted(find(t, lambda x: x.op == op and len(x.args[2]) == 1), key=lambda x: x.id):
            n = x.args[2][0]
            j = J('lm')
            b = atom(open_(x, j))
            if n is not seqlen(sp) or b.op != 'ite' or b.args[0].op != 'eq' or b.args[1] is not TRUE:
                continue
            u, w = b.args[0].args
            if u is at(sp, j):
                u, w = w, u
            if w is at(sp, j) and j not in u.fv:
                t = loops.replace(t, x, mget(sm, u) if op == 'first' else has(sm, u))
    return t


def plain(t):
    """to_string of a string is the string"""
    import loops
    for x in find(t, lambda x: x.op == 'disp'):
        t = loops.replace(t, x, x.args[0])
    return t


def addsp(I, a, st, fr, e):
    cur = I.load(st, a[0])
    toks = I.deep(st, a[1])
    new = mk('registered', cur, toks)
    I.event('reg', st, fr, e, cur=cur, toks=toks, ret=new)
    I.store(st, a[0], new, fr, e)
    return UNIT


def encode_shape(cx, F, strict=False):
    """roles of Tokenizer::encode: main loop, cursor, output, the pieces"""
    r = cx.tok('encode')
    t, inp, drop = r.p(0), r.p(1), r.p(2)
    m, procs, sp, smap = (fld(t, 0, i) for i in (F.model, F.procs, F.specials, F.smap))
    L = mainloop(r, counted=False)
    out = role(L, 'output ids', lambda d: d['init'] is EMPTY)
    cur = role(L, 'cursor', lambda d: d['init'] is K0)
    o, c = phi(out), phi(cur)
    R = least(cx, r, slice_(inp, c, None), sp, c, strict)
    L = copy.copy(L)
    L.endpc, L.exits = R(L.endpc), [(k, R(g), x, v) for k, g, x, v in L.exits]
    out, cur = dict(out, next=R(out['next'])), dict(cur, next=R(cur['next']))
    nx = restrict(out['next'], L.endpc)
    if not (nx.op == 'cat' and nx.args[0] is o):
        raise Undecided('output is not appended to')
    app = cat(*nx.args[1:])
    pieces = []
    for g, l in leaves(app):
        g = AND(g, L.endpc)
        for g, x in (leaves(l.args[0], g) if l.op == 'one' else ()):
            ks = find(x, lambda y: y.op == 'mget' and y.args[0] is smap)
            if len(ks) != 1:
                raise Undecided('special id is not looked up in the map')
            pieces.append(dict(kind='special', id=x, key=ks[0].args[1], g=g))
        if l.op == 'one':
            pass
        elif l.op == 'fld' and l.args[0].op == 'm_encode':
            pieces.append(dict(kind='text', call=l.args[0], arg=l.args[0].args[1], g=g))
        else:
            raise Undecided(f'appended value not recognised: {show(l, 6)}')
    return dict(r=r, t=t, inp=inp, drop=drop, m=m, procs=procs, sp=sp, smap=smap, L=L, out=out, cur=cur, o=o, c=c, pieces=pieces, R=R, pre=R(L.pc))


# ------------------------------------------------------------------ C09
def c09(cx):
    F = fieldsof(cx)

    def ordinary_piece(q, p):
        a = p['arg']
        if a.op == 'fix':
            return a.args[2][1]
        ls = [l for _, l in leaves(a)]
        raise Undecided('the text given to the model is not a fold over the processors')

    def new_cursor(q, p):
        return restrict(q['cur']['next'], p['g'])

    def partition():
        q = encode_shape(cx, F)
        r, c, inp = q['r'], q['c'], q['inp']
        n = 0
        for p in q['pieces']:
            x = p['key'] if p['kind'] == 'special' else ordinary_piece(q, p)
            g, x = p['g'], q['R'](x)
            c2 = new_cursor(q, p)
            exp = slice_(inp, c, c2)
            if not agree(q, x, exp, g):
                _blame(cx, r, x, exp, f'{p["kind"]} piece must be the text from the old to the new cursor', q, g)
            n += 1
        # stop exactly when the text is used up
        G = OR(*[g for k, g, x, v in q['L'].exits if k[0] == 'brk'])
        exp = le(seqlen(inp), c)
        if not veq(G, exp):
            _blame(cx, r, G, exp, 'splitting must stop exactly when the cursor reaches the end of the text', q)
        cx.clear(r)
        return f'{n} kinds of piece, each equal to text[cursor..cursor\'], loop left iff cursor >= length'
    cx.ob('partition', 'every piece is the text between consecutive cursor positions and the whole text is covered', partition)

    def leftmost():
        q = encode_shape(cx, F, True)
        r, c, inp, sp = q['r'], q['c'], q['inp'], q['sp']
        E, o0, k0 = leftmost_hit(slice_(inp, c, None), sp)
        run = lt(c, seqlen(inp))
        special = AND(run, E, lt(o0, K1))
        sps = [p for p in q['pieces'] if p['kind'] == 'special']
        gs = OR(*[p['g'] for p in sps])
        pre = q['pre']
        if sps and not agree(q, gs, special, pre):
            # restricted by the map lookup
            known = OR(*[AND(p['g'], has(q['smap'], p['key'])) for p in sps]) if len(sps) > 1 else has(q['smap'], sps[0]['key'])
            if not agree(q, restrict(gs, run), restrict(AND(special, known), run), pre):
                _blame(cx, r, gs, special, 'a piece is special iff a special token starts at the cursor', q)
        for p in q['pieces']:
            g = p['g']
            if p['kind'] == 'special':
                exp = slice_(inp, c, add(c, seqlen(at(sp, k0))))
                exps = (exp, slice_(inp, c, add(c, add(o0, seqlen(at(sp, k0))))))      # o0 is 0 there
                if not any(agree(q, p['key'], x, AND(special, g) if len(sps) > 1 else AND(special, pre)) for x in exps):
                    _blame(cx, r, restrict(p['key'], special), exp, 'a special piece is the special token found at the cursor', q)
        nc = q['cur']['next']
        exp, exp2 = (ite(E, ite(lt(o0, K1), x, add(c, o0)), seqlen(inp)) for x in (add(c, seqlen(at(sp, k0))), add(c, add(o0, seqlen(at(sp, k0))))))
        if not agree(q, nc, exp, q['L'].endpc) and not agree(q, nc, exp2, q['L'].endpc):
            _blame(cx, r, restrict(nc, q['L'].endpc), exp, 'the cursor must move to the first special token, past it, or to the end', q)
        return 'ordinary pieces end at the leftmost occurrence of a special token; special pieces are the token found there'
    cx.ob('leftmost', 'pieces are cut at the leftmost occurrence of a registered, non-empty special token', leftmost)
    cx.ob('termination', 'every piece is non-empty', lambda: progress(cx, F))
    cx.ob('whole', 'encode returns the ids of all the pieces, and leaves out the splitting only for texts it cannot change', lambda: unsplit(cx, F))

    def nopanic():
        return panics(cx, cx.tok('encode'), allow=lambda e: e['kind'] == 'panic' and 'unwrap' in str(e.get('why')), via=encode_shape(cx, F)['R'])
    cx.ob('total', 'no slice of the text is out of bounds', nopanic)


def unsplit(cx, F):
    """what encode returns with the loop over the pieces, and on the paths that leave it out"""
    q = encode_shape(cx, F)
    r, inp, sp, pre = q['r'], q['inp'], q['sp'], q['pre']
    n, empty = seqlen(sp), lt(seqlen(inp), K1)
    whole = mk('m_encode', q['m'], foldseq(q['procs'], inp, lambda p, y: mk('pre', p, y)), q['drop'])
    k = J('sk')
    hit = AND(lt(k, n), lt(K0, seqlen(at(sp, k))), le(seqlen(at(sp, k)), seqlen(inp)))
    found = [mk('sfind', inp, at(sp, k)), mk('sfind', inp, at(sp, k), K0)]

    def refuted(g):
        """no text with a special token in it takes the path"""
        g = AND(g, NOT(empty))
        if g is FALSE:
            return True
        for x in find(g, lambda x: x.op == 'ex' and x.args[2][0] is n):
            g = loops.replace(g, x, OR(TT.open_(x, k), x))
        for c in find(g, lambda x: x.op == 'cnt' and x.args[0] is q['smap']):
            g = loops.replace(g, c, n)
        for f in found:
            g = loops.replace(g, f, some(sym('somewhere')))
        g = loops.mapop(g, 'contains', lambda x: TRUE if x.args == (inp, at(sp, k)) else x)
        return proves(NOT(AND(restrict(g, hit), hit)))
    loc = next(l for l, d in q['L'].vars.items() if d['phi'] is q['o'])
    ends = {q['R'](loops.getv(r.I, st, loc)) for key, g, st, val in q['L'].exits if key[0] == 'brk'}
    final = ends.pop() if len(ends) == 1 else None
    cnt = [0, 0]
    for g, l in leaves(r.ret):
        g0 = AND(g, NOT(pre))
        if g0 is not FALSE and not proves(NOT(g0)):
            cnt[0] += 1
            if proves(OR(NOT(g0), empty)) and (veq(l, ok(EMPTY), g0) or veq(l, whole, g0)):
                continue
            got = restrict(l, g0)
            if refuted(g0) and veq(got, whole, g0):
                continue
            why = murky(mk('tuple2', got, g0), whole)
            if why:
                raise Undecided(f'a path without splitting: {why}')
            if not refuted(g0):
                raise Violation(f'texts are not split at special tokens when {show(g0, 10)[:400]}', r.where)
            raise Violation(f'a text without special tokens is not encoded as encode_ordinary does when {show(g0, 8)[:300]}: got {show(got, 8)[:300]}', r.where)
        g1 = AND(g, pre)
        if g1 is not FALSE and is_ok_term(l) and veq(isvar(l, 0, 2), TRUE):
            cnt[1] += 1
            if final is None:
                raise Undecided('the splitting loop ends with the ids in several states')
            got = q['R'](restrict(fld(l, 0, 0), g1))
            if veq(got, final, g1):
                continue
            got = subst(got, {q['o']: sym('ids'), q['c']: sym('cursor')})
            why = murky(got, subst(final, {q['o']: sym('ids'), q['c']: sym('cursor')}))
            if why:
                raise Undecided(f'the ids returned: {why}')
            raise Violation(f'the ids returned are not those of the pieces: {show(got, 10)[:400]}', r.where)
    if not cnt[1]:
        raise Undecided('the result of the splitting loop is not recognised')
    return f'{cnt[1]} result of the splitting loop returned whole; {cnt[0]} paths around it'


def agree(q, a, b, g=TRUE):
    """equal wherever g holds, telling the case without special tokens from the others"""
    if veq(a, b, g):
        return True
    n = seqlen(q['sp'])

    def settle(t, g):
        for op, s in (('imin', 1), ('imax', -1)):
            t = loops.mapop(t, op, lambda x: next((y for y in x.args if all(proves(OR(NOT(g), le(y, z) if s > 0 else le(z, y))) for z in x.args if z is not y)), x))
        return t

    def case(f, h):
        G = AND(f(g), h)
        return G is FALSE or veq(*(settle(restrict(f(t), G), G) for t in (a, b)), G)
    return case(lambda t: loops.replace(t, n, K0), TRUE) and case(lambda t: t, lt(K0, n))


def leftmost_hit(S, sp):
    """whether a non-empty special token occurs in S, where the first one does, and which one that is"""
    ch = mk('charidx', S)
    off = lambda i: fld(at(ch, i), 0, 0)
    hit = lambda i, k: AND(lt(K0, seqlen(at(sp, k))), atom(mk('startswith', slice_(S, off(i), None), at(sp, k))))
    ns = seqlen(sp)
    hitany = lambda i: exists(ns, lambda k: hit(i, k), 'k')
    E = exists(seqlen(ch), hitany, 'i')
    i0 = first(seqlen(ch), hitany, 'i')
    k0 = first(ns, lambda k: hit(i0, k), 'k')
    o0 = off(i0)
    TT.declare_nonneg(o0)
    return E, o0, k0


def least(cx, run, S, sp, cursor, strict):
    """resolves loops over the special tokens that keep the candidate found first in S: the term -> the term with their result"""
    memo = {}
    E, o0, k0 = leftmost_hit(S, sp)

    def solve(t):
        if t in memo:
            return memo[t]
        n, inits = t.args[2][0], t.args[2][1:]
        r = None
        if n is seqlen(sp) and TT.find(t, lambda x: x.op == 'sfind' and x.args[0] is S):
            fs = [sym('least', t.id, i) for i in range(len(inits))]
            j, k = J('lj'), J('lk')
            body = TT.open_(t, *fs, j)
            nxt = [fld(body, 0, i) for i in range(len(inits))]
            hit = lambda x: mk('sfind', S, at(sp, x))
            size = lambda x: seqlen(at(sp, x))
            a, d = sym('hit', 'least'), sym('gap', 'least')
            for x in (a, d):
                TT.declare_nonneg(x)
            full = lambda x: lt(K0, size(x))

            def nearer(x):
                for op, s in (('imin', 1), ('imax', -1)):
                    x = loops.mapop(x, op, lambda t: next((y for y in t.args if all(TT.nonneg(mul(mk('k', s), sub(z, y))) for z in t.args)), t))
                return x

            def case(x, m, hj, hk=None):
                x = loops.replace(subst(x, m), hit(j), hj)
                return nearer(x if hk is None else loops.replace(x, hit(k), hk))
            m0 = dict(zip(fs, inits))
            inside = lambda x, o: le(add(o, size(x)), seqlen(S))
            A = AND(full(j), inside(j, a))
            C = [restrict(case(x, m0, some(a)), A) for x in nxt]
            if not any(c.fv & (set(fs) | {hit(j)}) for c in C):
                def same_(m, hj, hk, want, g):
                    return all(veq(case(x, m, hj, hk), w, g) for x, w in zip(nxt, want))

                def kept(o):
                    return [subst(c, {j: k, a: o}) for c in C]
                one_ = add(add(a, d), K1)
                mk_ = lambda o: dict(zip(fs, kept(o)))
                B = AND(full(k), inside(k, a))
                bad = None
                if not same_(m0, NONE, None, inits, TRUE) or not same_(m0, some(a), None, inits, NOT(full(j))) \
                        or not same_(mk_(a), NONE, some(a), kept(a), B) \
                        or not all(same_(mk_(o2), some(o1), some(o2), kept(o2), AND(NOT(full(j)), full(k), inside(k, o2))) for o1, o2 in ((a, one_), (one_, a), (a, a))):
                    bad = 'a special token that is empty or does not occur is taken for one found'
                elif not same_(mk_(one_), some(a), some(one_), C, AND(A, full(k), inside(k, one_))):
                    bad = 'of two special tokens found the one further left does not replace the other'
                elif not same_(mk_(a), some(one_), some(a), kept(a), AND(full(j), B, inside(j, one_))):
                    bad = 'of two special tokens found the one further right replaces the other'
                else:
                    u, w = sym('len', 'least'), sym('longer', 'least')
                    for x in (u, w):
                        TT.declare_nonneg(x)
                    for lj, lk in ((u, add(add(u, w), K1)), (add(add(u, w), K1), u), (u, u)):
                        def sized(x):
                            x = loops.replace(loops.replace(x, size(j), lj), size(k), lk)
                            return nearer(x)
                        same2 = lambda want: all(veq(sized(case(x, mk_(a), some(a), some(a))), sized(w_), sized(AND(A, B))) for x, w_ in zip(nxt, want))
                        if not same2(kept(a)) and not same2(C):
                            bad = ''
                if bad is None:
                    r = ite(E, subst(C[0], {j: k0, a: o0}), inits[0])
                elif bad and strict and len(inits) == 1 and not murky(subst(body, {cursor: sym('cursor'), fs[0]: sym('best')})):
                    raise Violation(f'{bad}: {show(subst(nxt[0], {cursor: sym("cursor"), fs[0]: sym("best")}), 10)[:500]}', run.where)
        memo[t] = t if r is None else r
        return memo[t]

    def resolve(t):
        for x in TT.find(t, lambda x: x.op == 'fix' and x.args[2][0] is seqlen(sp)):
            y = solve(x)
            if y is not x:
                t = loops.replace(t, x, y)
        return t
    return resolve


def _blame(cx, r, got, exp, what, q, g=TRUE):
    m = {q['c']: sym('cursor'), q['o']: sym('out')}
    a, b = subst(got, m), subst(exp, m)
    why = murky(a, b)
    if why:
        raise Undecided(f'{what}: {why}')
    raise Violation(f'{what}: got {show(restrict(a, subst(g, m)), 12)[:600]}; required {show(b, 12)[:600]}', r.where)


def progress(cx, F):
    q = encode_shape(cx, F)
    r = q['r']
    c2 = restrict(q['cur']['next'], q['L'].endpc)
    cond = OR(NOT(q['L'].endpc), lt(q['c'], c2))
    if not proves(cond):
        m = {q['c']: sym('cursor'), q['o']: sym('out')}
        why = murky(subst(cond, m))
        if why:
            raise Undecided(why)
        raise Violation(f'the cursor may not advance: {show(NOT(cond), 14)[:600]}', r.where)
    return 'cursor strictly increases in every iteration'


# ------------------------------------------------------------------ C10
def c10(cx):
    for name, single in (('encode_batch', 't_encode'), ('encode_ordinary_batch', 't_encode_ordinary'), ('decode_batch', 't_decode')):
        def go(name=name, single=single):
            r = cx.tok(name, 'SINGLE')
            xs = mk('items', r.p(1))
            n = seqlen(xs)
            call = lambda j: mk(single, r.p(0), at(xs, j), r.p(2))
            bad = lambda j: NOT(is_ok(call(j)))
            E = exists(n, bad)
            f = first(n, bad)
            good = ok(concat(n, lambda j: one(fld(call(j), 0, 0))))
            got = r.ret
            if is_ok_term(got):
                pass
            # which failing item is reported is not prescribed
            cx.same(is_ok(got), NOT(E), f'{name} succeeds iff every item does', r)
            cx.same(restrict(got, NOT(E)), good, f'{name} returns the per-item results in order', r, NOT(E))
            cx.clear(r)
            return 'Ok([single(item, options) for item in order]) iff all succeed'
        cx.ob(name, f'{name} returns what the single call returns for each item, in order, and fails iff one item fails', go)

        def pure(name=name):
            r = cx.tok(name, 'SINGLE')
            bad = [e for e in r.events if e['kind'] in ('lock', 'atomic', 'fs', 'random')]
            cx.must(not bad, f'{name} shares state between items', r)
            return panics(cx, r)
        cx.ob(name + '-independent', f'{name} shares no state between items and cannot panic', pure)


def is_ok_term(t):
    return t.op == 'agg'


# ------------------------------------------------------------------ C11
def c11(cx):
    F = fieldsof(cx)

    def forward(name):
        r = cx.tok(name)
        t = r.p(0)
        procs = fld(t, 0, F.procs)
        m = fld(t, 0, F.model)
        calls = {}
        for e in r.ev('call'):
            if e['name'] == 'm_encode':
                calls[e['ret']] = OR(calls.get(e['ret'], FALSE), e['pc'])
        if not calls:
            raise Violation(f'{name} never segments the text with the model', r.where)
        n = 0
        for c, pc in calls.items():
            mm, arg, d = c.args
            src = None
            cx.same(mm, m, 'model used', r)
            cx.same(d, r.p(2), 'dropout handed to the model', r)
            if proves(OR(NOT(pc), NOT(lt(seqlen(procs), K1)))):
                arg = unpeel(arg, seqlen(procs))
            if arg.op == 'fix' and len(arg.args[2]) == 2:
                src = arg.args[2][1]
                exp = foldseq(procs, src, lambda p, y: mk('pre', p, y))
                folds(arg, exp, procs, r)
                cx.same(arg, exp, 'preprocessing before segmentation', r)
            elif arg.op != 'fix' and (name == 'encode_ordinary' or proves(OR(NOT(pc), lt(seqlen(procs), K1)))):
                pass                # no processor to run; encode-ordinary and whole compare the results
            else:
                if find(arg, lambda x: x.op == 'fix'):
                    raise Undecided('preprocessing loop not recognised')
                why = murky(subst(arg, {s: sym('s') for s in arg.fv}))
                if why:
                    raise Undecided(why)
                raise Violation(f'{name} segments {show(arg, 8)[:300]} without running every processor over it', r.where)
            if src is not None and find(src, lambda x: x.op in ('pre', 'post')):
                raise Violation('text is processed twice', r.where)
            n += 1
        return f'{n} segmented texts, each the forward fold over the processors'
    for name in ('encode', 'encode_ordinary'):
        cx.ob(name + '-forward', f'{name} runs every processor forward, in order, over each ordinary piece before segmenting it', forward, name)

    def ordinary():
        r = cx.tok('encode_ordinary')
        t = r.p(0)
        exp = mk('m_encode', fld(t, 0, F.model), foldseq(fld(t, 0, F.procs), r.p(1), lambda p, y: mk('pre', p, y)), r.p(2))
        if r.ret.op == 'm_encode' and r.ret.args[0] is exp.args[0] and r.ret.args[1].op == 'fix':
            folds(r.ret.args[1], exp.args[1], fld(t, 0, F.procs), r)
        empty = lt(seqlen(r.p(1)), K1)
        if veq(r.ret, ok(EMPTY), empty):
            cx.same(restrict(r.ret, NOT(empty)), exp, 'encode_ordinary', r, NOT(empty))    # no text, no ids
        else:
            cx.same(r.ret, exp, 'encode_ordinary', r)
        cx.clear(r)
        return 'model applied to the whole preprocessed text'
    cx.ob('encode-ordinary', 'encode_ordinary segments the whole preprocessed text', ordinary)

    def bypass():
        q = encode_shape(cx, F)
        n = 0
        for p in q['pieces']:
            if p['kind'] == 'special':
                n += 1
                if find(p['key'], lambda x: x.op in ('pre', 'post')):
                    raise Violation('a special token is preprocessed before its lookup', q['r'].where)
        return f'{n} special pieces are looked up unprocessed'
    cx.ob('bypass-encode', 'special tokens are not preprocessed', bypass)

    def backward():
        r = cx.tok('decode')
        t = r.p(0)
        procs = fld(t, 0, F.procs)
        posts = [e for e in r.ev('call') if e['name'] == 'post']
        if not posts:
            raise Violation('decoded text is never postprocessed', r.where)
        n = 0
        for l in r.loops.values():
            for loc, d in l.vars.items():
                if d['next'].op == 'post':
                    exp = mk('post', at(procs, sub(sub(seqlen(procs), K1), l.j)), d['phi'])
                    m = {l.j: sym('i'), phi_atom(d['phi']): sym('acc')}
                    cx.same(subst(d['next'], m), subst(exp, m), 'backward step', r)
                    cx.must(l.n is seqlen(procs), 'every processor runs backward', r)
                    if d['init'].op != 'fld' or d['init'].args[0].op != 'm_decode':
                        if find(d['init'], lambda x: x.op == 'at' and x.args[0] is fld(t, 0, F.specials)):
                            raise Violation('special tokens are postprocessed', r.where)
                        raise Undecided('postprocessed text not recognised')
                    n += 1
        if not n:
            raise Undecided('postprocessing loops not recognised')
        # every decoded text that reaches the output went through the fold
        for l in r.top(None):
            for loc, d in l.vars.items():
                for x in outside_fix(d['next']):
                    if x.op == 'fld' and x.args[0].op == 'm_decode' and x.args[1] == 0:
                        raise Violation('decoded text reaches the output without postprocessing', r.where)
        for g, l in leaves(r.ret):
            if l.op == 'm_decode' and not proves(OR(NOT(g), lt(seqlen(procs), K1), lt(seqlen(l.args[1]), K1))):
                why = murky(subst(g, {s: sym('s') for s in g.fv}))
                if why:
                    raise Undecided(why)
                raise Violation(f'decoded text is returned without postprocessing when {show(g, 8)[:300]}', r.where)
        for x in outside_fix(r.ret):
            if x.op == 'fld' and x.args[0].op == 'm_decode' and x.args[1] == 0:
                raise Violation('decoded text reaches the output without postprocessing', r.where)
        return f'{n} postprocessing folds run over the processors from last to first'
    cx.ob('decode-backward', 'decode runs every processor backward, in reverse order, over each decoded piece; special texts bypass them', backward)

    # the processors themselves
    W = 'tokengeex::processor::ProcessorWrapper'
    PT = 'tokengeex::processor::Processor'

    def by_chars(t):
        """leaving out every char a that a different char b follows is replacing ab by b"""
        for x in find(t, lambda x: x.op == 'bc' and seqlen(x.args[2][0]) is not None and x.args[2][0].op == 'len' and x.args[2][0].args[0].op == 'chars'):
            n = x.args[2][0]
            cs, j = n.args[0], J('ch')
            body = TT.open_(x, j)
            own = {mk('utf8', at(cs, j)), mk('strpiece', at(cs, j))}
            ls = [(g, l) for g, l in leaves(body) if g is not FALSE]
            if not ls or any(l not in own and l is not EMPTY for _, l in ls):
                continue
            drop = FALSE
            for g, l in ls:
                if l is EMPTY:
                    drop = OR(drop, g)
            nxt = at(cs, add(j, K1))
            for a in find(drop, lambda y: y.op == 'kc'):
                for b in find(drop, lambda y: y.op == 'kc'):
                    want = AND(eq(at(cs, j), a), AND(lt(add(j, K1), n), eq(nxt, b)))
                    if a is not b and proves(OR(NOT(drop), want)) and proves(OR(NOT(want), drop)):
                        ka, kb = (chr(c.args[0]) for c in (a, b))
                        return loops.replace(t, x, mk('replace', cs.args[0], K(ka + kb), K(kb)))
        return t

    def proc_body(ty, name):
        return cx.method(ty, name, PT, crate=LIB)

    def crlf(name, f):
        r = cx.run(proc_body('tokengeex::processor::CrlfProcessor', name), None)
        cx.same(by_chars(r.ret), f(r.p(1)), f'CrlfProcessor::{name}', r)
        cx.clear(r)
        return show(r.ret, 6)
    cx.ob('crlf-forward', 'CRLF preprocessing replaces every CRLF by LF and changes nothing else', crlf, 'preprocess', lambda s: mk('replace', s, K('\r\n'), K('\n')))
    cx.ob('crlf-backward', 'CRLF postprocessing changes nothing', crlf, 'postprocess', lambda s: s)

    def unicode():
        r = cx.run(proc_body('tokengeex::processor::UnicodeProcessor', 'preprocess'), None)
        U = 'tokengeex::processor::UnicodeProcessor'
        cx.clear(r)
        a = cx.prog.adt_by_path[U]
        n = a['n']
        for form in ('Nfc', 'Nfd', 'Nfkc', 'Nfkd'):
            g = isvar(r.p(0), cx.vidx(U, form), n)
            got = restrict(r.ret, g)
            cx.same(got, mk(form.lower(), r.p(1)), f'normal form applied for {form}', r, g)
        return 'each form applies its own normalization'
    cx.ob('unicode-forward', 'each Unicode form applies its own normal form', unicode)

    def uback():
        r = cx.run(proc_body('tokengeex::processor::UnicodeProcessor', 'postprocess'), None)
        cx.same(r.ret, r.p(1), 'UnicodeProcessor::postprocess', r)
        return 'identity'
    cx.ob('unicode-backward', 'Unicode postprocessing changes nothing', uback)

    def dispatch(name):
        b = proc_body(W, name)
        w = {}
        for ty in ('Crlf', 'Unicode'):
            p = f'tokengeex::processor::{ty}Processor'
            d = cx.prog.defs[proc_body(p, name)['def']]['path']
            w[d] = (lambda ty: lambda I, a, st, fr, e: mk('step_' + ty, I.deep(st, a[0]), I.deep(st, a[1])))(ty)
        r = cx.run(b, None, extra=w, tag='dispatch')
        cx.clear(r)
        n = cx.prog.adt_by_path[W]['n']
        for ty in ('Crlf', 'Unicode'):
            v = cx.vidx(W, ty)
            g = isvar(r.p(0), v, n)
            cx.same(restrict(r.ret, g), mk('step_' + ty, fld(r.p(0), v, 0), r.p(1)), f'{name} of a wrapped {ty} processor', r, g)
        return 'each wrapped processor runs its own step'
    for name in ('preprocess', 'postprocess'):
        cx.ob('dispatch-' + name, f'a wrapped processor runs its own {name}', dispatch, name)


def folds(got, exp, procs, r):
    """a fold of one processor step over the processors is in closed form: it differs from the required one iff its direction, extent or step does"""
    if got is exp or got.op != 'fix' or len(got.args[2]) != 2:
        return
    b = got.args[1]
    b = b.args[2][0] if b.op == 'agg' and len(b.args[2]) == 1 else b
    if b.op in ('pre', 'post') and b.args[0].op == 'at' and b.args[0].args[0] is procs and b.args[1].op == 'bv' and not murky(got.args[2][0]):
        i = b.args[0].args[1]
        if all(x.op in ('bv', 'lin', 'k', 'len') or x in set(subterms(procs)) for x in subterms(i)) and got.args[2][1] is exp.args[2][1]:
            raise Violation(f'processors are folded as {show(got, 8)[:300]} instead of {show(exp, 8)[:300]}', r.where)
    x, text = got.args[2][1], exp.args[2][1]
    if got.args[1] is exp.args[1] and (x.op in ('replace', 'replacen', 'slice', 'cat') or x.op.startswith('s_')) and text in set(subterms(x)) and not murky(x):
        raise Violation(f'the processors are not given the text but {show(x, 6)[:200]}', r.where)


def phi_atom(t):
    return t.args[0] if t.op == 'ite' else t


def outside_fix(t):
    """subterms not below a fold"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op in ('fix', 'is'):
            continue
        for s in TT._sub(x.args):
            st.append(s)
