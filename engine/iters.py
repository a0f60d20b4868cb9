"""Iterators as descriptors; every consumer is driven through run_loop so that
loops and iterator chains summarise to the same terms."""
from terms import *
import terms as TT
from interp import root, FALSE

ZERO = mk('k', 0)
ONE = mk('k', 1)


def it(desc, pos=ZERO):
    return agg('iter', 0, (desc, pos))


def is_it(v):
    return v.op == 'agg' and v.args[0] == 'iter'


def I_seq(v):
    return mk('I_seq', v)


def has_par(d):
    if d.op == 'I_par':
        return True
    return any(isinstance(a, T) and a.op.startswith('I_') and has_par(a) for a in d.args)


def unpar(d):
    if d.op == 'I_par':
        return d.args[0]
    if d.op.startswith('I_') and any(isinstance(a, T) and a.op.startswith('I_') for a in d.args):
        return mk(d.op, *[unpar(a) if isinstance(a, T) and a.op.startswith('I_') else a for a in d.args])
    return d


def irev(d):
    o, a = d.op, d.args
    if o == 'I_map':
        return mk('I_map', irev(a[0]), a[1])
    if o == 'I_filter':
        return mk('I_filter', irev(a[0]), a[1])
    if o == 'I_fmap':
        return mk('I_fmap', irev(a[0]), a[1])
    if o == 'I_chain':
        return mk('I_chain', irev(a[1]), irev(a[0]))
    if o == 'I_rev':
        return a[0]
    if o == 'I_par':
        return mk('I_par', irev(a[0]))
    return mk('I_rev', d)


def dparts(d):
    yield d
    for a in d.args:
        if isinstance(a, T) and a.op.startswith('I_'):
            yield from dparts(a)


def mutating(d):
    return any(x.op == 'I_mseq' for x in dparts(d))


def endless(d):
    return any(x.op in ('I_succ', 'I_local') or x.op == 'I_range' and x.args[1].op == 'inf' for x in dparts(d)) and not indexable(d)


def indexable(d):
    o, a = d.op, d.args
    if o in ('I_seq', 'I_mseq', 'I_range'):
        return True
    if o in ('I_enum', 'I_rev', 'I_take', 'I_skip', 'I_map', 'I_step', 'I_par'):
        return indexable(a[0])
    if o in ('I_zip', 'I_chain'):
        return indexable(a[0]) and indexable(a[1])
    return False


def size(I, st, d):
    """(n, raw)"""
    o, a = d.op, d.args
    if o == 'I_seq':
        n = seqlen(a[0])
        return n, n
    if o == 'I_mseq':
        n = seqlen(I.load(st, a[0]))
        return n, n
    if o == 'I_range' and a[1].op == 'inf':
        return a[1], a[1]
    if o == 'I_range':
        n = sub(a[1], a[0])
        return (n if all(nonneg(l) for _, l in leaves(n)) else imax(n, ZERO)), n
    if o in ('I_enum', 'I_rev', 'I_map', 'I_par'):
        return size(I, st, a[0])
    if o == 'I_take':
        n, raw = size(I, st, a[0])
        m = imin(n, a[1])
        return m, m
    if o == 'I_skip':
        n, raw = size(I, st, a[0])
        m = sub(raw, a[1])
        return imax(m, ZERO), m
    if o == 'I_zip':
        n, r1 = size(I, st, a[0])
        m, r2 = size(I, st, a[1])
        x = imin(n, m)
        return x, x
    if o == 'I_chain':
        n = add(size(I, st, a[0])[0], size(I, st, a[1])[0])
        return n, n
    if o == 'I_step':
        n, raw = size(I, st, a[0])
        m = idiv(add(n, sub(a[1], ONE)), a[1])
        return m, m
    raise KeyError(o)


def elem(I, st, d, i, fr, e):
    o, a = d.op, d.args
    if o == 'I_seq':
        return at(a[0], i)
    if o == 'I_mseq':
        return I.proj(a[0], ('i', i))
    if o == 'I_range':
        return add(a[0], i)
    if o == 'I_enum':
        return tup(i, elem(I, st, a[0], i, fr, e))
    if o == 'I_rev':
        n, raw = size(I, st, a[0])
        return elem(I, st, a[0], sub(sub(n, ONE), i), fr, e)
    if o in ('I_take', 'I_par'):
        return elem(I, st, a[0], i, fr, e)
    if o == 'I_skip':
        return elem(I, st, a[0], add(i, a[1]), fr, e)
    if o == 'I_step':
        return elem(I, st, a[0], mul(i, a[1]), fr, e)
    if o == 'I_chain':
        n, _ = size(I, st, a[0])
        return ite(lt(i, n), elem(I, st, a[0], i, fr, e), elem(I, st, a[1], sub(i, n), fr, e))
    if o == 'I_zip':
        return tup(elem(I, st, a[0], i, fr, e), elem(I, st, a[1], i, fr, e))
    if o == 'I_map':
        return I.call_value(a[1], [elem(I, st, a[0], i, fr, e)], st, fr, e)
    raise KeyError(o)


def to_iter(I, st, v, fr, e, ty):
    """v: value of an IntoIterator expression of static type ty"""
    crate = fr.crate
    mut = ty['k'] == 'ref' and ty.get('mut')
    base = I.strip(crate, ty)
    path = base.get('path') or ''
    if is_it(v):
        return v
    w = I.deep(st, v)
    if is_it(w):
        return w
    if w.op == 'ite' and all(is_it(l) for _, l in leaves(w)):
        return it(mk('I_unk', w))
    if path.endswith('ops::range::Range') or w.op == 'agg' and str(w.args[0]).endswith('::Range'):
        return it(mk('I_range', fld(w, 0, 0), fld(w, 0, 1)))
    if path.endswith('ops::range::RangeInclusive'):
        return it(mk('I_range', fld(w, 0, 0), add(fld(w, 0, 1), ONE)))
    if path.endswith('RangeFrom'):
        return it(mk('I_range', fld(w, 0, 0), mk('inf')))
    if path == OPT or path.endswith('option::IntoIter'):
        return it(I_seq(ite(is_some(w), one(fld(w, 1, 0)), EMPTY)))
    if 'HashMap' in path or 'DashMap' in path or 'BTreeMap' in path:
        return it(mk('I_seq', mk('entries', w)) if not mut else mk('I_unk', w))
    if 'HashSet' in path or 'BTreeSet' in path:
        return it(mk('I_seq', mk('mkeys', w)))
    if mut and v.op == 'ref':
        return it(mk('I_mseq', v))
    if 'Vec' in path or 'VecDeque' in path or base['k'] in ('slice', 'array', 'str') or path.endswith('string::String') or path.endswith('Box'):
        return it(I_seq(w))
    if 'BinaryHeap' in path:
        return it(I_seq(mk('heapitems', w)))
    # a local Iterator implementation
    if base['k'] == 'adt':
        h = local_next(I, base)
        if h:
            return it(mk('I_local', w, h))
    if w in I.seqsyms or w.op in ('cat', 'bc', 'rev', 'slice', 'rep', 'one', 'vset', 'items') and w is not EMPTY:
        return it(I_seq(w))
    return it(I_seq(mk('items', w)))


def local_next(I, base):
    for t, b in I.p.trait_impls('core::iter::traits::iterator::Iterator', 'next'):
        if t.get('path') == base.get('path') and t['k'] == 'adt':
            return b['def']
    return None


def run_iter(I, itv, st, cb, fr, e):
    if st.dead():
        return
    if not is_it(itv):
        itv = it(mk('I_unk', itv))
    desc, pos = itv.args[2]
    par = has_par(desc)
    if par:
        desc = unpar(desc)
    I.par_next = par
    drive(I, st, desc, pos, cb, fr, e, ())
    I.par_next = False


def drive(I, st, d, pos, cb, fr, e, sfx):
    if st.dead():
        return
    o, a = d.op, d.args
    lid = ('it', fr.id, id(e)) + sfx
    if o == 'I_map':
        return drive(I, st, a[0], pos, lambda x, s: s.dead() or cb(I.call_value(a[1], [x], s, fr, e), s), fr, e, sfx)
    if o == 'I_inspect':
        def f(x, s):
            I.call_value(a[1], [x], s, fr, e)
            if not s.dead():
                cb(x, s)
        return drive(I, st, a[0], pos, f, fr, e, sfx)
    if o == 'I_filter':
        def f(x, s):
            c = I.call_value(a[1], [x], s, fr, e)
            if not s.dead():
                I.branch(s, c, lambda t: cb(x, t), lambda t: None)
        return drive(I, st, a[0], pos, f, fr, e, sfx)
    if o == 'I_fmap':
        def f(x, s):
            r = I.call_value(a[1], [x], s, fr, e)
            if not s.dead():
                I.branch(s, is_some(r), lambda t: cb(fld(r, 1, 0), t), lambda t: None)
        return drive(I, st, a[0], pos, f, fr, e, sfx)
    if o == 'I_par':
        return drive(I, st, a[0], pos, cb, fr, e, sfx)
    if o == 'I_seq' and pos is ZERO:
        return drive_seq(I, st, a[0], cb, fr, e, sfx)
    if indexable(d):
        # effects of mapped closures below an adaptor are run per element
        if o in ('I_enum', 'I_rev', 'I_take', 'I_skip', 'I_zip', 'I_seq', 'I_mseq', 'I_range', 'I_step'):
            n, raw = size(I, st, d)
            if pos is not ZERO:
                raw = sub(raw, pos)
                n = imax(raw, ZERO)
            if o == 'I_enum' and a[0].op == 'I_seq' and pos is ZERO and a[0].args[0].op in ('cat', 'bc', 'ite'):
                pass
            return I.run_loop(lid, n, st, lambda j, s: cb(elem(I, s, d, add(pos, j), fr, e), s), fr, e, raw=raw, seq=d)
    if o == 'I_chain':
        if pos is ZERO:
            drive(I, st, a[0], ZERO, cb, fr, e, sfx + (0,))
            drive(I, st, a[1], ZERO, cb, fr, e, sfx + (1,))
            return
    if o == 'I_flat':
        def f(x, s):
            inner = x if is_it(x) else to_iter_dyn(I, s, x, fr, e)
            p = I.par_next
            I.par_next = False
            drive(I, s, unpar(inner.args[2][0]), inner.args[2][1], cb, fr, e, sfx + ('f',))
            I.par_next = p
        return drive(I, st, a[0], pos, f, fr, e, sfx)
    if o in ('I_take', 'I_tw', 'I_enum', 'I_skip', 'I_mw', 'I_sw') and pos is ZERO:
        r = root(fr.id, 'itc', id(e), sfx, o)
        key = ('brk', 'it', r)
        st.mem[r] = TRUE if o == 'I_sw' else ZERO

        def f(x, s):
            if o == 'I_tw':
                c = I.call_value(a[1], [x], s, fr, e)
                if not s.dead():
                    I.branch(s, c, lambda t: cb(x, t), lambda t: I.jump(key, t))
                return
            if o == 'I_mw':
                v = I.call_value(a[1], [x], s, fr, e)
                if not s.dead():
                    I.branch(s, is_some(v), lambda t: cb(fld(v, 1, 0), t), lambda t: I.jump(key, t))
                return
            k = s.mem[r]
            if o == 'I_sw':
                def chk(t):
                    c = I.call_value(a[1], [x], t, fr, e)

                    def go(t):
                        t.mem[r] = FALSE
                        cb(x, t)
                    if not t.dead():
                        I.branch(t, c, lambda t: None, go)
                return I.branch(s, k, chk, lambda t: cb(x, t))
            s.mem[r] = add(k, ONE)
            if o == 'I_enum':
                return cb(tup(k, x), s)
            if o == 'I_take':
                return I.branch(s, lt(k, a[1]), lambda t: cb(x, t), lambda t: I.jump(key, t))
            return I.branch(s, lt(k, a[1]), lambda t: None, lambda t: cb(x, t))
        drive(I, st, a[0], ZERO, f, fr, e, sfx)
        I.land(key, st, UNIT)
        st.mem.pop(r, None)
        return
    if o == 'I_zip' and pos is ZERO and not any(mutating(x) or endless(x) for x in a):
        # a side whose length is not known beforehand is listed first
        sides = []
        for k, x in enumerate(a):
            if not indexable(x):
                r = root(fr.id, 'itz', id(e), sfx, k)
                st.mem[r] = EMPTY

                def put(v, s, r=r):
                    s.mem[r] = cat(s.mem[r], one(v))
                drive(I, st, x, ZERO, put, fr, e, sfx + ('z', k))
                if st.dead():
                    return
                x = I_seq(st.mem.pop(r))
            sides.append(x)
        return drive(I, st, mk('I_zip', *sides), ZERO, cb, fr, e, sfx)
    if o == 'I_succ':
        r = root(fr.id, 'its', id(e), sfx)
        key = ('brk', 'its', r)
        st.mem[r] = a[0]

        def nxt(j, s):
            v = s.mem[r]

            def go(t):
                x = fld(restrict(v, t.pc), 1, 0)
                w = I.call_value(a[1], [x], t, fr, e)
                if not t.dead():
                    t.mem[r] = w
                    cb(x, t)
            I.branch(s, is_some(v), go, lambda t: I.jump(key, t))
        I.run_loop(lid, None, st, nxt, fr, e, own=key)
        I.land(key, st, UNIT)
        return
    if o == 'I_local':
        r = root(fr.id, 'itl', id(e), sfx)
        key = ('brk', 'itl', r)
        st.mem[r] = a[0]

        def body(j, s):
            v = I.call_def(a[1], [I.mref(r)], s, fr, e)
            if s.dead():
                return
            I.branch(s, is_some(v), lambda t: cb(fld(v, 1, 0), t), lambda t: I.jump(key, t))
        I.run_loop(lid, None, st, body, fr, e, own=key)
        I.land(key, st, UNIT)
        return
    # unknown iterator
    I.unk.append(('iterator ' + o, I.where(fr, e)))
    n = TT.declare_nonneg(mk('len', mk('unk', 'iter', d)))
    I.run_loop(lid, n, st, lambda j, s: cb(at(mk('unk', 'iter', d), j), s), fr, e)


def to_iter_dyn(I, st, x, fr, e):
    """an iterable without static type (flat_map results)"""
    w = I.deep(st, x)
    if is_it(w):
        return w
    if w.op == 'agg' and w.args[0] == OPT:
        return it(I_seq(EMPTY if w.args[1] == 0 else one(w.args[2][0])))
    return it(I_seq(w))


def drive_seq(I, st, v, cb, fr, e, sfx):
    if st.dead() or v is EMPTY:
        return
    if v.op == 'one':
        return cb(v.args[0], st)
    if v.op == 'ite' and len(leaves(v)) <= 4:
        return I.branch(st, TT._ab(v.args[0]), lambda s: drive_seq(I, s, v.args[1], cb, fr, e, sfx + ('t',)),
                        lambda s: drive_seq(I, s, v.args[2], cb, fr, e, sfx + ('e',)))
    if v.op == 'cat':
        for k, p in enumerate(v.args):
            old, I.uniq = I.uniq, I.uniq + (k,) if k else I.uniq
            drive_seq(I, st, p, cb, fr, e, sfx + (k,))
            I.uniq = old
        return
    lid = ('it', fr.id, id(e)) + sfx
    if v.op == 'bc' and v.args[1].op != 'one':
        n = v.args[2][0]
        return I.run_loop(lid, n, st, lambda j, s: drive_seq(I, s, open_(v, j), cb, fr, e, sfx + ('b',)), fr, e, seq=I_seq(v))
    n = seqlen(v)
    I.run_loop(lid, n, st, lambda j, s: cb(at(v, j), s), fr, e, raw=n, seq=I_seq(v))


def next_of(I, st, ref, fr, e):
    """Iterator::next on the place ref; None if not modelled"""
    v = I.load(st, ref)
    if not is_it(v):
        return None
    d, pos = v.args[2]
    if not indexable(unpar(d)):
        return None
    d = unpar(d)
    n, raw = size(I, st, d)
    c = restrict(lt(pos, raw), st.pc)
    I.store(st, ref, it(d, add(pos, ONE)), fr, e)
    box = []

    def some_(s):
        return some(elem(I, s, d, pos, fr, e))
    return I.branch(st, c, some_, lambda s: NONE)
