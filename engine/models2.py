"""Further models: less common iterator, Option/Result, map and string calls."""
from models import *
from models import _inner
import models as M
import iters
import terms as TT


def alias(new, old):
    MODELS[new] = MODELS[old]


# ------------------------------------------------------------ try-like results of a callback
def carried(I, fr, ty):
    """(continues?, payload, residual) of a value of a Try type"""
    p = ty.get('path') or ''
    if p == OPT:
        return (lambda r: is_some(r)), (lambda r: fld(r, 1, 0)), (lambda r: NONE), some
    if p == CF:
        return (lambda r: isvar(r, 0, 2)), (lambda r: fld(r, 0, 0)), (lambda r: agg(CF, 1, (fld(r, 1, 0),))), (lambda v: agg(CF, 0, (v,)))
    if p == RES:
        return is_ok, (lambda r: fld(r, 0, 0)), (lambda r: err(fld(r, 1, 0))), ok
    return None


def try_fold(rev=False):
    def f(I, st, a, fr, e, t):
        c = carried(I, fr, ety(I, fr, e))
        if c is None:
            return NotImplemented
        go, pay, res, wrap = c
        key = ('brk', 'tf', fr.id, id(e))

        def step(acc, x, s):
            r = I.call_value(a[2], [acc, x], s, fr, e)
            if s.dead():
                return UNIT
            I.branch(s, go(r), lambda u: UNIT, lambda u: I.jump(key, u, res(restrict(r, u.pc))))
            return pay(restrict(r, s.pc))
        itv = M.by_mut(I, st, a, fr, e)
        if rev:
            itv = it(irev(desc(itv)))
        v = accum(I, st, itv, a[1], step, fr, e)
        return I.land(key, st, wrap(v))
    return f


MODELS['Iterator::try_fold'] = try_fold()
MODELS['DoubleEndedIterator::try_rfold'] = try_fold(True)


@model('Iterator::try_for_each', 'ParallelIterator::try_for_each')
def m_tryfe(I, st, a, fr, e, t):
    c = carried(I, fr, ety(I, fr, e))
    if c is None:
        return NotImplemented
    go, pay, res, wrap = c
    key = ('brk', 'tfe', fr.id, id(e))

    def cb(x, s):
        r = I.call_value(a[1], [x], s, fr, e)
        if not s.dead():
            I.branch(s, go(r), lambda u: UNIT, lambda u: I.jump(key, u, res(restrict(r, u.pc))))
    run_iter(I, M.by_mut(I, st, a, fr, e), st, cb, fr, e)
    return I.land(key, st, wrap(UNIT))


# ------------------------------------------------------------ double-ended iterators
def reversed_arg(name):
    f = MODELS[name]

    def g(I, st, a, fr, e, t):
        return f(I, st, [it(irev(desc(M.by_mut(I, st, a, fr, e))))] + list(a[1:]), fr, e, t)
    return g


MODELS['DoubleEndedIterator::rfold'] = reversed_arg('Iterator::fold')
MODELS['DoubleEndedIterator::rfind'] = reversed_arg('Iterator::find')
MODELS['ParallelIterator::find_last'] = reversed_arg('Iterator::find')
MODELS['ParallelIterator::find_map_last'] = reversed_arg('Iterator::find_map')
MODELS['DoubleEndedIterator::nth_back'] = reversed_arg('Iterator::nth')


@model('Iterator::rposition')
def m_rposition(I, st, a, fr, e, t):
    v = M.by_mut(I, st, a, fr, e)

    def body(x, s, key):
        c = I.call_value(a[1], [fld(x, 0, 1)], s, fr, e)
        if not s.dead():
            I.branch(s, c, lambda u: I.jump(key, u, some(fld(x, 0, 0))), lambda u: UNIT)
    return M.search(I, st, [it(irev(mk('I_enum', desc(v))))], fr, e, body, NONE)


@model('DoubleEndedIterator::next_back')
def m_nextback(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    if not is_it(v):
        return NotImplemented
    d, pos = v.args[2]
    if d.op == 'I_back':
        d = d.args[0]
    elif pos is ZERO:
        d = irev(unpar(d))
    else:
        d, pos = irev(unpar(mk('I_skip', d, pos))), ZERO
    if not iters.indexable(d):
        return NotImplemented
    n, raw = iters.size(I, st, d)
    c = restrict(lt(pos, raw), st.pc)
    I.store(st, a[0], it(mk('I_back', d), add(pos, ONE)), fr, e)
    return I.branch(st, c, lambda s: some(iters.elem(I, s, d, pos, fr, e)), lambda s: NONE)


# ------------------------------------------------------------ adaptors with a state
@model('Iterator::scan')
def m_scan(I, st, a, fr, e, t):
    d = desc(TI(I, st, a, fr, e))
    r = root(fr.id, 'scan', id(e))
    st.mem[r] = a[1]
    return it(mk('I_mw', d, mk('pappm', a[2], I.mref(r))))


@model('iter::repeat', 'repeat::repeat')
def m_repeat(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return it(mk('I_map', mk('I_range', ZERO, mk('inf')), mk('konst', x)))


@model('iter::repeat_with', 'repeat_with::repeat_with')
def m_repeatw(I, st, a, fr, e, t):
    return it(mk('I_map', mk('I_range', ZERO, mk('inf')), mk('thunk', a[0])))


@model('iter::from_fn', 'from_fn::from_fn')
def m_fromfn(I, st, a, fr, e, t):
    return it(mk('I_mw', mk('I_range', ZERO, mk('inf')), mk('thunk', a[0])))


@model('iter::successors', 'successors::successors')
def m_succ(I, st, a, fr, e, t):
    return it(mk('I_succ', a[0], a[1]))


# ------------------------------------------------------------ comparing iterators
@model('Iterator::eq')
def m_iteq(I, st, a, fr, e, t):
    x = collect_into(I, st, TI(I, st, a, fr, e), {'path': '', 'k': 'vec'}, fr, e)
    a1 = list(a[1:])
    old, I.uniq = I.uniq, I.uniq + ('eq',)
    y = collect_into(I, st, to_iter(I, st, a[1], fr, e, argty(I, fr, e, 1)), {'path': '', 'k': 'vec'}, fr, e)
    I.uniq = old
    return eq(x, y)


@model('Iterator::ne')
def m_itne(I, st, a, fr, e, t):
    return NOT(m_iteq(I, st, a, fr, e, t))


# ------------------------------------------------------------ parallel iterators
for n in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'partition', 'unzip', 'product', 'chain'):
    alias('ParallelIterator::' + n, 'Iterator::' + n)


@model('ParallelIterator::reduce', 'IndexedParallelIterator::reduce')
def m_preduce(I, st, a, fr, e, t):
    init = I.call_value(a[1], [], st, fr, e)
    return accum(I, st, TI(I, st, a, fr, e), init, lambda acc, x, s: I.call_value(a[2], [acc, x], s, fr, e), fr, e)


alias('ParallelIterator::reduce_with', 'Iterator::reduce')


@model('IndexedParallelIterator::with_min_len', 'IndexedParallelIterator::with_max_len')
def m_withlen(I, st, a, fr, e, t):
    return TI(I, st, a, fr, e)


@model('ParallelIterator::for_each_with', 'ParallelIterator::for_each_init')
def m_few(I, st, a, fr, e, t):
    itv = M.m_mapwith(I, st, a, fr, e, t)
    run_iter(I, itv, st, lambda x, s: UNIT, fr, e)
    return UNIT


@model('IndexedParallelIterator::collect_into_vec')
def m_civ(I, st, a, fr, e, t):
    v = collect_into(I, st, TI(I, st, a, fr, e), {'path': '', 'k': 'vec'}, fr, e)
    I.store(st, a[1], v, fr, e)
    return UNIT


# ------------------------------------------------------------ bool
@model('bool::then', 'bool::impl::then')
def m_bthen(I, st, a, fr, e, t):
    return I.branch(st, atom(D(I, st, a[0])), lambda s: some(I.call_value(a[1], [], s, fr, e)), lambda s: NONE)


@model('bool::then_some', 'bool::impl::then_some')
def m_bthens(I, st, a, fr, e, t):
    return ite(atom(D(I, st, a[0])), some(a[1]), NONE)


# ------------------------------------------------------------ Option
@model('Option::and')
def m_oand2(I, st, a, fr, e, t):
    return ite(is_some(D(I, st, a[0])), a[1], NONE)


@model('Option::xor')
def m_oxor(I, st, a, fr, e, t):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    return ite(is_some(x), ite(is_some(y), NONE, x), y)


@model('Option::zip')
def m_ozip(I, st, a, fr, e, t):
    x, y = D(I, st, a[0]), D(I, st, a[1])
    return ite(AND(is_some(x), is_some(y)), some(tup(fld(x, 1, 0), fld(y, 1, 0))), NONE)


@model('Option::flatten')
def m_oflat(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_some(x), fld(restrict(x, is_some(x)), 1, 0), NONE)


@model('Option::inspect')
def m_oinspect(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    I.branch(st, is_some(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e), lambda s: UNIT)
    return x


@model('Option::transpose')
def m_otrans(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    p = fld(x, 1, 0)
    return ite(is_some(x), ite(is_ok(p), ok(some(fld(p, 0, 0))), err(fld(p, 1, 0))), ok(NONE))


@model('Option::get_or_insert_with')
def m_ogoiw(I, st, a, fr, e, t):
    r = a[0]
    v = I.load(st, r)
    if v.op == 'ref':
        r, v = v, I.load(st, v)

    def absent(s):
        I.store(s, r, some(I.call_value(a[1], [], s, fr, e)), fr, e)
        return UNIT
    I.branch(st, is_some(v), lambda s: UNIT, absent)
    return I.proj(r, ('f', 1, 0, OPT, 1))


alias('Option::as_deref_mut', 'Option::as_mut')


# ------------------------------------------------------------ Result
@model('Result::map_or_else')
def m_rmapore(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: I.call_value(a[2], [fld(restrict(x, s.pc), 0, 0)], s, fr, e),
                    lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e))


@model('Result::and')
def m_rand2(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_ok(x), a[1], err(fld(x, 1, 0)))


@model('Result::or')
def m_ror2(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_ok(x), x, a[1])


@model('Result::transpose')
def m_rtrans(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    p = fld(x, 0, 0)
    return ite(is_ok(x), ite(is_some(p), some(ok(fld(p, 1, 0))), NONE), some(err(fld(x, 1, 0))))


@model('Result::flatten')
def m_rflat(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_ok(x), fld(x, 0, 0), err(fld(x, 1, 0)))


@model('Result::is_ok_and')
def m_isokand(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 0, 0)], s, fr, e), lambda s: FALSE)


@model('Result::is_err_and')
def m_iserrand(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: FALSE, lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e))


@model('Result::inspect')
def m_rinspect(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    I.branch(st, is_ok(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 0, 0)], s, fr, e), lambda s: UNIT)
    return x


@model('Result::inspect_err')
def m_rinspecterr(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    I.branch(st, is_ok(x), lambda s: UNIT, lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e))
    return x


for n in ('Result::cloned', 'Result::copied'):
    MODELS[n] = lambda I, st, a, fr, e, t: D(I, st, a[0])


@model('Result::iter', 'Result::into_iter')
def m_riter(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return it(I_seq(ite(is_ok(x), one(fld(x, 0, 0)), EMPTY)))


# ------------------------------------------------------------ maps and sets
@model('HashMap::get_key_value', 'BTreeMap::get_key_value')
def m_getkv(I, st, a, fr, e, t):
    m, k = D(I, st, a[0]), D(I, st, a[1])
    return ite(has(m, k), some(tup(k, mget(m, k))), NONE)


@model('HashMap::remove_entry', 'BTreeMap::remove_entry')
def m_removeentry(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mdel(m, k), fr, e)
    return ite(has(m, k), some(tup(k, mget(m, k))), NONE)


@model('HashSet::get', 'BTreeSet::get')
def m_sget(I, st, a, fr, e, t):
    m, k = D(I, st, a[0]), D(I, st, a[1])
    return ite(has(m, k), some(k), NONE)


@model('HashSet::take', 'BTreeSet::take')
def m_stake(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mdel(m, k), fr, e)
    return ite(has(m, k), some(k), NONE)


alias('BTreeMap::get_mut', 'HashMap::get_mut')
alias('BTreeMap::remove', 'HashMap::remove')
alias('BTreeSet::remove', 'HashSet::remove')
alias('BTreeMap::is_empty', 'HashMap::is_empty')
alias('BTreeSet::is_empty', 'HashSet::is_empty')
alias('BTreeMap::values', 'HashMap::values')
alias('BTreeMap::into_values', 'HashMap::into_values')
alias('BTreeMap::into_keys', 'HashMap::into_keys')
alias('BTreeMap::into_iter', 'HashMap::into_iter')
alias('BTreeSet::iter', 'HashSet::iter')
alias('HashSet::into_iter', 'HashSet::iter')
alias('BTreeMap::clear', 'HashMap::clear')
alias('BTreeSet::clear', 'HashSet::clear')


@model('Entry::insert_entry', 'Entry::or_insert_with_key')
def m_orinswk(I, st, a, fr, e, t):
    if simpname(I, e).endswith('entry'):
        return NotImplemented
    _, k = ent(D(I, st, a[0]))
    return entry_place(I, st, a[0], lambda s: I.call_value(a[1], [k], s, fr, e), fr, e)


# ------------------------------------------------------------ cells
@model('Cell::set')
def m_cset(I, st, a, fr, e, t):
    I.store(st, a[0], a[1], fr, e)
    return UNIT


@model('Cell::replace', 'RefCell::replace')
def m_creplace(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], a[1], fr, e)
    return v


@model('Cell::take', 'RefCell::take')
def m_ctake(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], M.default_of(I, fr, ety(I, fr, e), st, e), fr, e)
    return v


# ------------------------------------------------------------ choosing
@model('cmp::max_by')
def m_cmaxby(I, st, a, fr, e, t):
    return ite(eq(I.call_value(a[2], [a[0], a[1]], st, fr, e), GREATER), a[0], a[1])


@model('cmp::min_by')
def m_cminby(I, st, a, fr, e, t):
    return ite(eq(I.call_value(a[2], [a[0], a[1]], st, fr, e), GREATER), a[1], a[0])


# ------------------------------------------------------------ numbers
for ty in ('usize', 'u32', 'u64', 'u8', 'u16', 'i32', 'i64', 'isize', 'num'):
    MODELS[ty + '::checked_mul'] = lambda I, st, a, fr, e, t: some(mul(D(I, st, a[0]), D(I, st, a[1])))
    MODELS[ty + '::saturating_mul'] = lambda I, st, a, fr, e, t: mul(D(I, st, a[0]), D(I, st, a[1]))
    MODELS[ty + '::wrapping_mul'] = MODELS[ty + '::saturating_mul']
    MODELS[ty + '::checked_div'] = lambda I, st, a, fr, e, t: ite(eq(a[1], ZERO), NONE, some(idiv(a[0], a[1])))


# ------------------------------------------------------------ sequences
@model('slice::copy_from_slice', 'slice::clone_from_slice')
def m_copyfrom(I, st, a, fr, e, t):
    r = a[0]
    v, w = I.load(st, r), D(I, st, a[1])
    if v.op == 'ref':
        r, v = v, I.load(st, v)
    p = NOT(eq(seqlen(v), seqlen(w)))
    if p is not FALSE:
        I.branch(st, p, lambda s: I.panic(s, fr, e, mk('msg', KB(b'lengths differ'))), lambda s: UNIT)
    I.store(st, r, w, fr, e)
    return UNIT


@model('slice::split_at_checked', 'str::split_at_checked')
def m_splitatc(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    if simpname(I, e).startswith('str'):
        c = AND(le(a[1], seqlen(v)), atom(mk('charboundary', v, a[1])))
    else:
        c = le(a[1], seqlen(v))
    return ite(c, some(tup(slice_(v, ZERO, a[1]), slice_(v, a[1], None))), NONE)


@model('slice::repeat', 'str::repeat')
def m_srepeat(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    if v.op == 'one':
        return M.rep_(v.args[0], a[1])
    j = sym('repj', id(e))
    TT.declare_nonneg(j)
    return bigcat(a[1], j, v)


@model('slice::rsplit_once_')
def m_none(I, st, a, fr, e, t):
    return NotImplemented


alias('String::split_off', 'Vec::split_off')


@model('Peekable::next_if')
def m_nextif(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    if not is_it(v) or not iters.indexable(unpar(v.args[2][0])):
        return NotImplemented
    d, pos = v.args[2]
    d = unpar(d)
    n, raw = iters.size(I, st, d)

    def there(s):
        x = iters.elem(I, s, d, pos, fr, e)
        c = I.call_value(a[1], [x], s, fr, e)

        def take_(u):
            I.store(u, a[0], it(d, add(pos, ONE)), fr, e)
            return some(x)
        return I.branch(s, c, take_, lambda u: NONE)
    return I.branch(st, lt(pos, raw), there, lambda s: NONE)


del MODELS['String::pop']
