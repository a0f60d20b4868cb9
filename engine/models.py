"""Models of the standard-library and dependency calls the code uses."""
from terms import *
import terms as TT
from interp import root, CALLBACKS
from iters import *
import iters

MODELS = {}
CF = 'core::ops::control_flow::ControlFlow'


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def D(I, st, x):
    return I.deep(st, x)


def ty_of(fr, t):
    return fr.crate.types[t] if isinstance(t, int) else None


def ety(I, fr, e):
    return I.tyof(fr, e) if e is not None and 'ty' in e else {'k': '?', 's': '?', 'path': '', 'args': []}


def argty(I, fr, e, i):
    return I.tyof(fr, e['args'][i]) if e is not None and 'args' in e and i < len(e['args']) and 'ty' in e['args'][i] else {'k': '?', 's': '?', 'args': []}


def base(I, fr, t):
    return I.strip(fr.crate, t)


def bpath(I, fr, e, i):
    b = base(I, fr, argty(I, fr, e, i))
    return b.get('path') or b['k']


# ------------------------------------------------------------ identities
def ident(I, st, a, fr, e, t):
    return a[0]


for n in ('Clone::clone', 'AsRef::as_ref', 'Arc::new', 'Rc::new', 'Box::new', 'Deref::deref', 'DerefMut::deref_mut', 'Borrow::borrow',
          'String::as_bytes', 'str::as_bytes', 'String::as_str', 'String::into_bytes', 'str::to_owned', 'ToOwned::to_owned', 'slice::to_vec',
          'Vec::as_slice', 'Vec::as_mut_slice', 'Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref',
          'Cow::into_owned', 'slice::into_vec', 'Vec::into_boxed_slice', 'String::into_boxed_str', 'hint::must_use', 'convert::identity',
          'Match::as_str', 'RwLock::new', 'Mutex::new', 'RwLock::into_inner', 'Mutex::into_inner', 'RefCell::new', 'RefCell::into_inner', 'Cell::new', 'DashMap::into_iter',
          'Iterator::cloned', 'Iterator::copied', 'Iterator::by_ref', 'Iterator::fuse', 'ParallelIterator::cloned', 'ParallelIterator::copied',
          'PyBytes::as_bytes', 'boxed::box_assume_init_into_vec_unsafe', 'Into::into', 'ToPyObject::to_object', 'IntoPy::into_py',
          'Wrapping::new', 'Rc::clone', 'Arc::clone', 'AsMut::as_mut', 'slice::as_ref', 'str::as_ref', 'Option::unwrap_or_default_', 'Box::leak', 'Rc::as_ref', 'Bound::unbind'):
    MODELS[n] = ident


def uncow(v):
    """the text or list a Cow holds, borrowed or owned"""
    if v.op == 'ite':
        return lift('uncow', uncow, v)
    if v.op == 'fix' and len(v.args[2]) == 2 and uncow(v.args[2][1]) is not v.args[2][1]:
        # a loop that replaces what the Cow holds
        acc, j = sym('acc', 'cow', v.id), sym('j', 'cow', v.id)
        b = TT.open_(v, acc, j)
        if b.op == 'agg' and len(b.args[2]) == 1:
            x = uncow(b.args[2][0])
            if x is not b.args[2][0]:
                return TT.bind('fix', (acc, j), mk('agg', b.args[0], b.args[1], (x,)), (v.args[2][0], uncow(v.args[2][1])))
        return v
    return v.args[2][0] if v.op == 'agg' and str(v.args[0]).endswith('::Cow') and v.args[2] else v


@model('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Option::as_ref', 'String::as_bytes', 'str::as_bytes', 'String::as_str', 'Vec::as_slice', 'Option::as_deref')
def m_val(I, st, a, fr, e, t):
    x = a[0]
    ty = ety(I, fr, e)
    if ty['k'] == 'ref' and any(w in ty['s'] for w in ('RwLock', 'DashMap', 'Atomic', 'Mutex')):
        return x
    return uncow(D(I, st, x)) if 'Cow' in argty(I, fr, e, 0)['s'] else D(I, st, x)


@model('Clone::clone', 'ToOwned::to_owned', 'str::to_owned', 'slice::to_vec', 'Option::cloned', 'Option::copied', 'Cow::into_owned', 'slice::into_vec')
def m_clone(I, st, a, fr, e, t):
    ty = ety(I, fr, e)
    if any(w in ty['s'] for w in ('RwLock', 'DashMap', 'Atomic', 'Mutex')):
        return a[0]
    if simpname(I, e) == 'Cow::into_owned':
        return uncow(D(I, st, a[0]))
    return D(I, st, a[0])


@model('RefCell::borrow', 'RefCell::borrow_mut', 'Mutex::get_mut', 'RwLock::get_mut', 'Cell::get')
def m_borrow(I, st, a, fr, e, t):
    return a[0]


@model('DerefMut::deref_mut', 'Option::as_mut', 'Result::as_mut', 'AsMut::as_mut', 'Vec::as_mut_slice')
def m_mut(I, st, a, fr, e, t):
    x = a[0]
    if x.op == 'ref':
        v = I.load(st, x)
        if v.op == 'ref':
            return v
        key = e['callee']['def'] if e and e.get('callee') else None
        if e and simpname(I, e) == 'Option::as_mut':
            return opt_map(I, st, v, lambda s, p: I.proj(x, ('f', 1, 0, OPT, 1)))
        if e and simpname(I, e) == 'Result::as_mut':
            return I.branch(st, is_ok(v), lambda s: ok(I.proj(x, ('f', 0, 0, RES, 1))), lambda s: err(I.proj(x, ('f', 1, 0, RES, 1))))
    return x


def simpname(I, e):
    from thir import simp
    c = e.get('callee')
    return simp(I.p.defs[c['def']]['path']) if c else ''


# ------------------------------------------------------------ Option / Result
def opt_map(I, st, x, f):
    return I.branch(st, is_some(x), lambda s: some(f(s, fld(restrict(x, s.pc), 1, 0))), lambda s: NONE)


@model('Option::map')
def m_omap(I, st, a, fr, e, t):
    return opt_map(I, st, D(I, st, a[0]), lambda s, p: I.call_value(a[1], [p], s, fr, e))


@model('Option::and_then')
def m_oand(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e), lambda s: NONE)


@model('Option::filter')
def m_ofilter(I, st, a, fr, e, t):
    x = D(I, st, a[0])

    def f(s):
        p = fld(restrict(x, s.pc), 1, 0)
        return ite(atom(I.call_value(a[1], [p], s, fr, e)), some(p), NONE)
    return I.branch(st, is_some(x), f, lambda s: NONE)


@model('Option::or')
def m_oor(I, st, a, fr, e, t):
    return ite(is_some(a[0]), a[0], a[1])


@model('Option::or_else')
def m_oorelse(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: x, lambda s: I.call_value(a[1], [], s, fr, e))


@model('Option::ok_or')
def m_okor(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_some(x), ok(fld(restrict(x, is_some(x)), 1, 0)), err(a[1]))


@model('Option::ok_or_else')
def m_okorelse(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: ok(fld(restrict(x, s.pc), 1, 0)), lambda s: err(I.call_value(a[1], [], s, fr, e)))


@model('Option::unwrap_or', 'Result::unwrap_or')
def m_unwrapor(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    if is_res(I, fr, e):
        return ite(is_ok(x), fld(x, 0, 0), a[1])
    return ite(is_some(x), fld(x, 1, 0), a[1])


def is_res(I, fr, e):
    return bpath(I, fr, e, 0) == RES


@model('Option::unwrap_or_else')
def m_ouoe(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: fld(restrict(x, s.pc), 1, 0), lambda s: I.call_value(a[1], [], s, fr, e))


@model('Result::unwrap_or_else')
def m_ruoe(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: fld(restrict(x, s.pc), 0, 0), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e))


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_uod(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    d = default_of(I, fr, ety(I, fr, e), st, e)
    if is_res(I, fr, e):
        return ite(is_ok(x), fld(x, 0, 0), d)
    return ite(is_some(x), fld(x, 1, 0), d)


@model('Option::map_or')
def m_omapor(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: I.call_value(a[2], [fld(restrict(x, s.pc), 1, 0)], s, fr, e), lambda s: a[1])


@model('Option::map_or_else')
def m_omapore(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: I.call_value(a[2], [fld(restrict(x, s.pc), 1, 0)], s, fr, e), lambda s: I.call_value(a[1], [], s, fr, e))


@model('Option::is_some_and')
def m_osa(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e), lambda s: FALSE)


@model('Option::is_none_or')
def m_ono(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_some(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e), lambda s: TRUE)


@model('Option::is_some')
def m_iss(I, st, a, fr, e, t):
    return is_some(D(I, st, a[0]))


@model('Option::is_none')
def m_isn(I, st, a, fr, e, t):
    return NOT(is_some(D(I, st, a[0])))


@model('Result::is_ok')
def m_isok(I, st, a, fr, e, t):
    return is_ok(D(I, st, a[0]))


@model('Result::is_err')
def m_iserr(I, st, a, fr, e, t):
    return NOT(is_ok(D(I, st, a[0])))


@model('Option::unwrap', 'Option::expect')
def m_ounwrap(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    g = I.gets.get(x)
    if g is not None:
        # v.get(i).unwrap() is v[i]: what it needs is an obligation of the place
        kind, v, i, n, val = g
        if kind == 'slice':
            I.event('slice', st, fr, e, v=v, lo=i, hi=n)
        else:
            I.event('index', st, fr, e, v=v, i=i)
        return val
    return I.branch(st, is_some(x), lambda s: fld(restrict(x, s.pc), 1, 0), lambda s: I.panic(s, fr, e, mk('unwrap', x)))


@model('Result::unwrap', 'Result::expect')
def m_runwrap(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: fld(restrict(x, s.pc), 0, 0), lambda s: I.panic(s, fr, e, mk('unwrap', x)))


@model('Result::expect_err', 'Result::unwrap_err')
def m_runwraperr(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: I.panic(s, fr, e, mk('unwrap', x)), lambda s: fld(restrict(x, s.pc), 1, 0))


@model('Result::map')
def m_rmap(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: ok(I.call_value(a[1], [fld(restrict(x, s.pc), 0, 0)], s, fr, e)), lambda s: err(fld(restrict(x, s.pc), 1, 0)))


@model('Result::map_err')
def m_rmaperr(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: ok(fld(restrict(x, s.pc), 0, 0)), lambda s: err(I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e)))


@model('Result::and_then')
def m_rand(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 0, 0)], s, fr, e), lambda s: err(fld(restrict(x, s.pc), 1, 0)))


@model('Result::or_else')
def m_ror(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: ok(fld(restrict(x, s.pc), 0, 0)), lambda s: I.call_value(a[1], [fld(restrict(x, s.pc), 1, 0)], s, fr, e))


@model('Result::map_or')
def m_rmapor(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return I.branch(st, is_ok(x), lambda s: I.call_value(a[2], [fld(restrict(x, s.pc), 0, 0)], s, fr, e), lambda s: a[1])


@model('Result::ok')
def m_rok(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_ok(x), some(fld(x, 0, 0)), NONE)


@model('Result::err')
def m_rerr(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    return ite(is_ok(x), NONE, some(fld(restrict(x, NOT(is_ok(x))), 1, 0)))


@model('Option::take')
def m_otake(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], NONE, fr, e)
    return v


@model('mem::take')
def m_mtake(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], default_of(I, fr, ety(I, fr, e), st, e), fr, e)
    return v


@model('mem::replace')
def m_mrepl(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], a[1], fr, e)
    return v


@model('Option::replace')
def m_orepl(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], some(a[1]), fr, e)
    return v


def _inner(a):
    # the place of the value of the option behind a reference
    if a.op == 'ref':
        return mk('ref', a.args[0], a.args[1] + (('f', 1, 0),))
    return None


@model('Option::insert')
def m_oinsert(I, st, a, fr, e, t):
    I.store(st, a[0], some(a[1]), fr, e)
    p = _inner(a[0])
    return I.unknown('Option::insert', fr, e) if p is None else p


@model('Option::get_or_insert')
def m_ogoi(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], ite(is_some(v), v, some(a[1])), fr, e)
    p = _inner(a[0])
    return mk('orderef', a[0]) if p is None else p


@model('mem::swap')
def m_swap(I, st, a, fr, e, t):
    v, w = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], w, fr, e)
    I.store(st, a[1], v, fr, e)
    return UNIT


@model('mem::drop', 'drop', 'mem::forget')
def m_drop(I, st, a, fr, e, t):
    return UNIT


@model('Try::branch')
def m_try(I, st, a, fr, e, t):
    x = D(I, st, a[0])
    p = bpath(I, fr, e, 0)
    if p == OPT:
        return ite(is_some(x), agg(CF, 0, (fld(restrict(x, is_some(x)), 1, 0),)), agg(CF, 1, (NONE,)))
    c = is_ok(x)
    return ite(c, agg(CF, 0, (fld(restrict(x, c), 0, 0),)), agg(CF, 1, (err(fld(restrict(x, NOT(c)), 1, 0)),)))


def convert(I, st, v, src, dst, fr, e):
    """v.into() : dst"""
    if src is None or dst is None or src['s'] == dst['s']:
        return v
    for c in I.p.impl_items_by_trait('core::convert::From', 'from'):
        ty, b = c
        ps = b['crate'].types[b['params'][0]['ty']]
        if ty['s'] == dst['s'] and ps['s'] == src['s']:
            return I.call_def(b['def'], [v], st, fr, e)
    return v


@model('FromResidual::from_residual')
def m_fromres(I, st, a, fr, e, t):
    x = a[0]
    ty = ety(I, fr, e)
    if ty.get('path') == OPT:
        return NONE
    src = dst = None
    try:
        dst = ty_of(fr, ty['args'][1])
        src = ty_of(fr, argty(I, fr, e, 0)['args'][1])
    except (IndexError, TypeError, KeyError):
        pass
    v = fld(x, 1, 0)
    if src and dst and src['s'] != dst['s']:
        v2 = convert(I, st, v, src, dst, fr, e)
        if v2 is v and dst.get('path', '') != src.get('path', ''):
            v2 = mk('conv', dst['s'], v)
        v = v2
    return err(v)


@model('Into::into', 'From::from')
def m_into(I, st, a, fr, e, t):
    src, dst = argty(I, fr, e, 0), ety(I, fr, e)
    if e is not None and e.get('args') is None:
        return a[0]
    dp = dst.get('path') or ''
    if src['k'] == 'char' and dp.endswith('string::String'):
        return utf8(a[0])
    if dst['k'] in ('uint', 'int', 'float') and src['k'] in ('uint', 'int', 'float', 'bool', 'char'):
        return I.cast(D(I, st, a[0]), src, dst, fr, e)
    if dp == OPT and src.get('path') != OPT:
        return some(a[0])
    v = D(I, st, a[0])
    if 'HashMap' in dp or 'HashSet' in dp or 'BTree' in dp:
        return from_seq(I, st, I_seq(v), dst, fr, e)
    return convert(I, st, v, src, dst, fr, e)


@model('TryInto::try_into', 'TryFrom::try_from')
def m_tryinto(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    src, dst = argty(I, fr, e, 0), ety(I, fr, e)
    if (dst.get('path') or '') == RES and dst['args']:
        dst = fr.crate.types[dst['args'][0]]
        if src['k'] in ('uint', 'int') and dst['k'] in ('uint', 'int') and I.cast(v, src, dst, fr, e) is v:
            # (what a cast keeps: token ids and lengths fit 32 bits)
            return ok(v)
    c = atom(mk('fits', ety(I, fr, e)['s'], v))
    return ite(c, ok(v), err(mk('tryfromerr', v)))


# ------------------------------------------------------------ defaults
def default_of(I, fr, ty, st, e):
    k, p = ty['k'], ty.get('path') or ''
    if k in ('uint', 'int'):
        return ZERO
    if k == 'float':
        return KF(0.0)
    if k == 'bool':
        return FALSE
    if p == OPT:
        return NONE
    if 'Map' in p or 'HashSet' in p or 'BTreeSet' in p:
        return MEMPTY
    if p.endswith('String') or 'Vec' in p or 'BinaryHeap' in p or k in ('str', 'slice'):
        return EMPTY
    if k == 'tuple':
        return tup(*[default_of(I, fr, fr.crate.types[x], st, e) for x in ty['args']])
    if p.endswith('sync::Arc') or p.endswith('rc::Rc') or p.endswith('RwLock') or p.endswith('RefCell') or p.endswith('Mutex') or p.endswith('Box'):
        return default_of(I, fr, fr.crate.types[ty['args'][0]], st, e)
    if k == 'ref':
        return default_of(I, fr, fr.crate.types[ty['args'][0]], st, e)
    if k == 'adt':
        for t, b in I.p.trait_impls('core::default::Default', 'default'):
            if t.get('path') == p:
                return I.run_body(b['def'], [], st, f'{fr.id}/dflt{id(e)}{p}', fr)
    return mk('default', ty['s'])


@model('Default::default')
def m_default(I, st, a, fr, e, t):
    return default_of(I, fr, ety(I, fr, e), st, e)


# ------------------------------------------------------------ comparison
@model('PartialEq::eq')
def m_eq(I, st, a, fr, e, t):
    return eq(D(I, st, a[0]), D(I, st, a[1]))


@model('PartialEq::ne')
def m_ne(I, st, a, fr, e, t):
    return NOT(eq(D(I, st, a[0]), D(I, st, a[1])))


@model('str::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case')
def m_eqi(I, st, a, fr, e, t):
    return atom(mk('eqi', *sorted((D(I, st, a[0]), D(I, st, a[1])), key=lambda x: x.id)))


def cmp_(I, st, x, y, ty, fr, e):
    k = ty['k']
    if k in ('uint', 'int'):
        return cmp_int(x, y)
    if k == 'float':
        return cmp_flt(x, y)
    if k == 'adt' and (ty.get('path') or '').endswith('cmp::Reverse'):
        it_ = fr.crate.types[ty['args'][0]]
        return cmp_(I, st, fld(y, 0, 0), fld(x, 0, 0), it_, fr, e)
    if k == 'tuple':
        r = EQUAL
        for i, a in reversed(list(enumerate(ty['args']))):
            c = cmp_(I, st, fld(x, 0, i), fld(y, 0, i), I.strip(fr.crate, fr.crate.types[a]), fr, e)
            r = ite(eq(c, EQUAL), r, c)
        return r
    if k == 'adt':
        for nm, tr in (('cmp', 'core::cmp::Ord'), ('partial_cmp', 'core::cmp::PartialOrd')):
            for t2, b in I.p.trait_impls(tr, nm):
                if t2.get('path') == ty.get('path') and not I.p.defs[b['def']].get('derived'):
                    r = I.call_def(b['def'], [x, y], st, fr, e)
                    return fld(r, 1, 0) if nm == 'partial_cmp' else r
    return mk('cmp', x, y)


@model('Ord::cmp', 'f64::total_cmp', 'f32::total_cmp')
def m_cmp(I, st, a, fr, e, t):
    ty = base(I, fr, argty(I, fr, e, 0))
    if e is None or ty['k'] == '?':
        ty = I.strip(fr.crate, ty_of(fr, t[0])) if t and isinstance(t[0], int) else {'k': '?'}
    return cmp_(I, st, D(I, st, a[0]), D(I, st, a[1]), ty, fr, e)


@model('PartialOrd::partial_cmp')
def m_pcmp(I, st, a, fr, e, t):
    ty = base(I, fr, argty(I, fr, e, 0))
    if ty['k'] == '?' and t and isinstance(t[0], int):
        ty = I.strip(fr.crate, ty_of(fr, t[0]))
    return some(cmp_(I, st, D(I, st, a[0]), D(I, st, a[1]), ty, fr, e))


@model('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge')
def m_plt(I, st, a, fr, e, t):
    ty = base(I, fr, argty(I, fr, e, 0))
    c = cmp_(I, st, D(I, st, a[0]), D(I, st, a[1]), ty, fr, e)
    nm = simpname(I, e).split('::')[-1]
    return {'lt': lambda: eq(c, LESS), 'gt': lambda: eq(c, GREATER), 'le': lambda: NOT(eq(c, GREATER)), 'ge': lambda: NOT(eq(c, LESS))}[nm]()


@model('Ordering::reverse')
def m_orev(I, st, a, fr, e, t):
    return ord_rev(a[0])


@model('Ordering::then')
def m_then(I, st, a, fr, e, t):
    return ite(eq(a[0], EQUAL), a[1], a[0])


@model('Ordering::then_with')
def m_thenw(I, st, a, fr, e, t):
    return I.branch(st, eq(a[0], EQUAL), lambda s: I.call_value(a[1], [], s, fr, e), lambda s: a[0])


@model('Ordering::is_lt')
def m_islt(I, st, a, fr, e, t):
    return eq(a[0], LESS)


@model('Ordering::is_gt')
def m_isgt(I, st, a, fr, e, t):
    return eq(a[0], GREATER)


@model('Ordering::is_eq')
def m_iseq(I, st, a, fr, e, t):
    return eq(a[0], EQUAL)


@model('Ord::max', 'cmp::max')
def m_max(I, st, a, fr, e, t):
    ty = base(I, fr, argty(I, fr, e, 0))
    if ty['k'] in ('uint', 'int'):
        return imax(D(I, st, a[0]), D(I, st, a[1]))
    return NotImplemented


@model('Ord::min', 'cmp::min')
def m_min(I, st, a, fr, e, t):
    ty = base(I, fr, argty(I, fr, e, 0))
    if ty['k'] in ('uint', 'int'):
        return imin(D(I, st, a[0]), D(I, st, a[1]))
    return NotImplemented


@model('Ord::clamp')
def m_clamp(I, st, a, fr, e, t):
    return imin(imax(a[0], a[1]), a[2])


@model('f64::clamp', 'f32::clamp')
def m_fclamp(I, st, a, fr, e, t):
    return fmin(fmax(a[0], a[1]), a[2])


@model('f64::max', 'f32::max')
def m_fmax(I, st, a, fr, e, t):
    return fmax(a[0], a[1])


@model('f64::min', 'f32::min')
def m_fmin(I, st, a, fr, e, t):
    return fmin(a[0], a[1])


@model('f64::exp', 'f64::ln', 'f64::is_nan', 'f64::is_infinite', 'f64::is_normal', 'f64::is_finite', 'f64::sqrt', 'f64::abs', 'f64::powi', 'f64::powf', 'f64::floor', 'f64::ceil',
       'f64::round', 'f64::log2', 'f64::log10', 'f64::exp_m1', 'f64::ln_1p', 'f64::to_bits', 'f64::recip', 'f64::mul_add', 'f64::signum', 'f64::is_sign_negative', 'f64::is_sign_positive', 'f64::is_subnormal')
def m_fun(I, st, a, fr, e, t):
    nm = simpname(I, e).split('::')[-1]
    if nm == 'recip':
        return finv(a[0])
    if nm == 'mul_add':
        return fadd(fmul(a[0], a[1]), a[2])
    if nm == 'powi' and D(I, st, a[1]).op == 'k' and abs(D(I, st, a[1]).args[0]) <= 16:
        x, k = D(I, st, a[0]), D(I, st, a[1]).args[0]
        r = KF(1.0)
        for _ in range(abs(k)):
            r = fmul(r, x)
        return finv(r) if k < 0 else r
    r = lift(('ff', nm), lambda *x: mk('f_' + nm, *x), *[D(I, st, x) for x in a])
    if nm in ('floor', 'ceil', 'round'):
        pass
    return atom(r) if nm.startswith('is_') else r


for nm, f in (('add', fadd), ('sub', fsub), ('mul', fmul), ('div', fdiv)):
    def g(I, st, a, fr, e, t, nm=nm, f=f):
        x, y = D(I, st, a[0]), D(I, st, a[1])
        k = base(I, fr, argty(I, fr, e, 0))['k']
        if k == 'float':
            return f(x, y)
        if k in ('uint', 'int'):
            return I.binop(nm.capitalize(), x, y, k, st, fr, e)
        if nm == 'add' and 'String' in base(I, fr, argty(I, fr, e, 0))['s']:
            return cat(x, y)
        return mk('op', nm, x, y)
    MODELS[nm.capitalize() + '::' + nm] = g

    def g2(I, st, a, fr, e, t, nm=nm, f=f):
        x, y = I.load(st, a[0]), D(I, st, a[1])
        k = base(I, fr, argty(I, fr, e, 0))['k']
        if k == 'float':
            r = f(x, y)
        elif k in ('uint', 'int'):
            r = I.binop(nm.capitalize(), x, y, k, st, fr, e)
        elif nm == 'add' and 'String' in base(I, fr, argty(I, fr, e, 0))['s']:
            r = cat(x, y)
        else:
            r = mk('op', nm, x, y)
        I.store(st, a[0], r, fr, e)
        return UNIT
    MODELS[nm.capitalize() + 'Assign::' + nm + '_assign'] = g2
    MODELS['*::' + nm + '_assign'] = g2


@model('Not::not')
def m_not(I, st, a, fr, e, t):
    return NOT(atom(D(I, st, a[0])))


for ty in ('usize', 'u32', 'u64', 'u8', 'u16', 'i32', 'i64', 'isize', 'num'):
    MODELS[ty + '::saturating_sub'] = lambda I, st, a, fr, e, t: imax(sub(a[0], a[1]), ZERO) if argty(I, fr, e, 0)['k'] == 'uint' else sub(a[0], a[1])
    MODELS[ty + '::saturating_add'] = lambda I, st, a, fr, e, t: add(a[0], a[1])
    MODELS[ty + '::wrapping_add'] = lambda I, st, a, fr, e, t: add(a[0], a[1])
    MODELS[ty + '::checked_sub'] = lambda I, st, a, fr, e, t: ite(le(a[1], a[0]), some(sub(a[0], a[1])), NONE)
    MODELS[ty + '::checked_add'] = lambda I, st, a, fr, e, t: some(add(a[0], a[1]))
    MODELS[ty + '::min'] = MODELS['Ord::min']
    MODELS[ty + '::max'] = MODELS['Ord::max']
    MODELS[ty + '::abs_diff'] = lambda I, st, a, fr, e, t: sub(imax(a[0], a[1]), imin(a[0], a[1]))
    MODELS[ty + '::div_ceil'] = lambda I, st, a, fr, e, t: idiv(sub(add(a[0], a[1]), ONE), a[1])
    MODELS[ty + '::is_power_of_two'] = lambda I, st, a, fr, e, t: atom(mk('pow2', a[0]))
    MODELS[ty + '::pow'] = lambda I, st, a, fr, e, t: mk('ipow', a[0], a[1])


# ------------------------------------------------------------ strings and vectors
def utf8(c):
    if c.op == 'kc':
        return KB(chr(c.args[0]).encode())
    return mk('utf8', c)


@model('String::new', 'Vec::new', 'Vec::with_capacity', 'String::with_capacity', 'BinaryHeap::new', 'VecDeque::new', 'VecDeque::with_capacity', 'BinaryHeap::with_capacity')
def m_new(I, st, a, fr, e, t):
    return EMPTY


@model('HashMap::new', 'HashSet::new', 'DashMap::new', 'HashMap::with_capacity', 'HashSet::with_capacity', 'DashMap::with_capacity', 'BTreeMap::new', 'BTreeSet::new')
def m_newmap(I, st, a, fr, e, t):
    return MEMPTY


@model('String::len', 'str::len', 'Vec::len', 'slice::len', 'BinaryHeap::len', 'VecDeque::len')
def m_len(I, st, a, fr, e, t):
    return seqlen(D(I, st, a[0]))


@model('String::is_empty', 'str::is_empty', 'Vec::is_empty', 'slice::is_empty', 'BinaryHeap::is_empty', 'VecDeque::is_empty')
def m_isempty(I, st, a, fr, e, t):
    return lt(seqlen(D(I, st, a[0])), ONE)


@model('HashMap::len', 'HashSet::len', 'DashMap::len', 'BTreeMap::len', 'BTreeSet::len')
def m_mlen(I, st, a, fr, e, t):
    return msize(D(I, st, a[0]))


@model('HashMap::is_empty', 'HashSet::is_empty', 'DashMap::is_empty')
def m_mempty(I, st, a, fr, e, t):
    return lt(msize(D(I, st, a[0])), ONE)


@model('Vec::push', 'VecDeque::push_back')
def m_push(I, st, a, fr, e, t):
    I.store(st, a[0], cat(I.load(st, a[0]), one(a[1])), fr, e)
    return UNIT


@model('BinaryHeap::push')
def m_hpush(I, st, a, fr, e, t):
    I.store(st, a[0], cat(I.load(st, a[0]), one(a[1])), fr, e)
    return UNIT


@model('BinaryHeap::pop', 'BinaryHeap::peek')
def m_hpop(I, st, a, fr, e, t):
    h = D(I, st, a[0])
    c = lt(ZERO, seqlen(h))
    r = ite(c, some(mk('hmax', h)), NONE)
    if a[0].op == 'ref' and simpname(I, e).endswith('pop'):
        I.store(st, a[0], ite(c, mk('hrest', h), h), fr, e)
    return r


@model('VecDeque::push_front')
def m_pushf(I, st, a, fr, e, t):
    I.store(st, a[0], cat(one(a[1]), I.load(st, a[0])), fr, e)
    return UNIT


@model('String::push')
def m_spush(I, st, a, fr, e, t):
    I.store(st, a[0], cat(I.load(st, a[0]), utf8(a[1])), fr, e)
    return UNIT


@model('String::push_str', 'Vec::extend_from_slice')
def m_pushstr(I, st, a, fr, e, t):
    I.store(st, a[0], cat(I.load(st, a[0]), D(I, st, a[1])), fr, e)
    return UNIT


@model('Vec::append', 'VecDeque::append', 'BinaryHeap::append')
def m_append(I, st, a, fr, e, t):
    I.store(st, a[0], cat(I.load(st, a[0]), I.load(st, a[1])), fr, e)
    I.store(st, a[1], EMPTY, fr, e)
    return UNIT


@model('Vec::insert', 'VecDeque::insert', 'String::insert_str')
def m_insert(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    x = one(a[2]) if 'String' not in simpname(I, e) else D(I, st, a[2])
    I.store(st, a[0], cat(slice_(v, ZERO, a[1]), x, slice_(v, a[1], None)), fr, e)
    return UNIT


@model('Vec::remove')
def m_remove(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.event('index', st, fr, e, v=v, i=a[1])
    I.store(st, a[0], cat(slice_(v, ZERO, a[1]), slice_(v, add(a[1], ONE), None)), fr, e)
    return at(v, a[1])


@model('Vec::swap_remove')
def m_swapremove(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], mk('swaprem', v, a[1]), fr, e)
    return at(v, a[1])


@model('Vec::clear', 'String::clear', 'BinaryHeap::clear', 'VecDeque::clear')
def m_clear(I, st, a, fr, e, t):
    I.store(st, a[0], EMPTY, fr, e)
    return UNIT


@model('HashMap::clear', 'HashSet::clear', 'DashMap::clear')
def m_mclear(I, st, a, fr, e, t):
    I.store(st, a[0], MEMPTY, fr, e)
    return UNIT


@model('Vec::truncate')
def m_trunc(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], take(v, a[1]), fr, e)
    return UNIT


def take(v, n):
    """first min(n, len) elements"""
    m = seqlen(v)
    c = lt(n, m)
    return ite(c, slice_(v, ZERO, n), v)


def dropn(v, n):
    m = seqlen(v)
    c = lt(n, m)
    return ite(c, slice_(v, n, None), EMPTY)


@model('Vec::split_off')
def m_splitoff(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], slice_(v, ZERO, a[1]), fr, e)
    return slice_(v, a[1], None)


@model('Vec::pop', 'VecDeque::pop_back', 'String::pop')
def m_pop(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    n = seqlen(v)
    c = lt(ZERO, n)

    def y(s):
        w = restrict(v, s.pc)
        n = seqlen(w)
        if w.op == 'cat' and w.args[-1].op == 'one' or w.op == 'one':
            p = parts(w)
            I.store(s, a[0], cat(*p[:-1]), fr, e)
            return some(p[-1].args[0])
        I.store(s, a[0], slice_(w, ZERO, sub(n, ONE)), fr, e)
        return some(at(w, sub(n, ONE)))
    return I.branch(st, c, y, lambda s: NONE)


@model('VecDeque::pop_front')
def m_popf(I, st, a, fr, e, t):
    v = I.load(st, a[0])

    def y(s):
        w = restrict(v, s.pc)
        I.store(s, a[0], slice_(w, ONE, None), fr, e)
        return some(at(w, ZERO))
    return I.branch(st, lt(ZERO, seqlen(v)), y, lambda s: NONE)


@model('Vec::resize')
def m_resize(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    n = seqlen(v)
    I.store(st, a[0], ite(lt(a[1], n), slice_(v, ZERO, a[1]), cat(v, rep_(a[2], sub(a[1], n)))), fr, e)
    return UNIT


def rep_(x, n):
    if n is ZERO:
        return EMPTY
    return lift(('rep', x), lambda n: EMPTY if n is ZERO else mk('rep', x, n), n)


@model('Vec::resize_with')
def m_resizew(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    n = seqlen(v)
    x = I.call_value(a[2], [], st, fr, e)
    I.store(st, a[0], ite(lt(a[1], n), slice_(v, ZERO, a[1]), cat(v, rep_(x, sub(a[1], n)))), fr, e)
    return UNIT


@model('vec::from_elem')
def m_fromelem(I, st, a, fr, e, t):
    return rep_(a[0], a[1])


@model('slice::fill')
def m_fill(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.store(st, a[0], rep_(a[1], seqlen(v)), fr, e)
    return UNIT


@model('slice::reverse')
def m_reverse(I, st, a, fr, e, t):
    I.store(st, a[0], rev(I.load(st, a[0])), fr, e)
    return UNIT


@model('slice::swap')
def m_sswap(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    x, y = at(v, a[1]), at(v, a[2])
    I.store(st, a[0], vset(vset(v, a[1], y), a[2], x), fr, e)
    return UNIT


@model('slice::first', 'VecDeque::front')
def m_first(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return ite(lt(ZERO, seqlen(v)), some(at(v, ZERO)), NONE)


@model('slice::last', 'VecDeque::back')
def m_last(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    n = seqlen(v)
    p = parts(v)
    if p and p[-1].op == 'one':
        return some(p[-1].args[0])
    return ite(lt(ZERO, n), some(at(v, sub(n, ONE))), NONE)


@model('slice::last_mut', 'slice::first_mut')
def m_lastmut(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    n = seqlen(v)
    i = sub(n, ONE) if 'last' in simpname(I, e) else ZERO
    return ite(lt(ZERO, n), some(I.proj(a[0], ('i', i))), NONE)


@model('slice::split_first')
def m_splitf(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return ite(lt(ZERO, seqlen(v)), some(tup(at(v, ZERO), slice_(v, ONE, None))), NONE)


@model('slice::split_last')
def m_splitl(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    n = sub(seqlen(v), ONE)
    return ite(lt(ZERO, seqlen(v)), some(tup(at(v, n), slice_(v, ZERO, n))), NONE)


@model('slice::split_at', 'str::split_at')
def m_splitat(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return tup(slice_(v, ZERO, a[1]), slice_(v, a[1], None))


def rng(I, i, n):
    """(lo, hi) of a range value or None"""
    if i.op != 'agg' or 'Range' not in str(i.args[0]):
        return None
    k = i.args[0].split('::')[-1]
    f = i.args[2]
    if k == 'Range':
        return f[0], f[1]
    if k == 'RangeFrom':
        return f[0], n
    if k == 'RangeTo':
        return ZERO, f[0]
    if k == 'RangeFull':
        return ZERO, n
    if k == 'RangeInclusive':
        return f[0], add(f[1], ONE)
    if k == 'RangeToInclusive':
        return ZERO, add(f[0], ONE)
    return None


def ismap(p):
    return 'Map' in p


@model('Index::index')
def m_index(I, st, a, fr, e, t):
    v, i = D(I, st, a[0]), D(I, st, a[1])
    if bpath(I, fr, e, 0).endswith('::Captures'):
        return v if i is ZERO else mk('unk', 'capture', v, i)
    if ismap(bpath(I, fr, e, 0)):
        I.event('mapindex', st, fr, e, v=v, i=i)
        return mget(v, i)
    r = rng(I, i, seqlen(v))
    if r:
        I.event('slice', st, fr, e, v=v, lo=r[0], hi=r[1])
        return slice_(v, r[0], r[1])
    I.event('index', st, fr, e, v=v, i=i)
    ty = ety(I, fr, e)
    if any(w in ty['s'] for w in ('RwLock', 'Atomic', 'Mutex')) and a[0].op == 'ref':
        return I.proj(a[0], ('i', i))
    return at(v, i)


@model('IndexMut::index_mut')
def m_indexmut(I, st, a, fr, e, t):
    i = D(I, st, a[1])
    v = D(I, st, a[0])
    ref = a[0]
    if ref.op == 'ref':
        w = I.load(st, ref)
        if w.op == 'ref':
            ref = w
    if ismap(bpath(I, fr, e, 0)):
        return I.proj(ref, ('k', i))
    r = rng(I, i, seqlen(v))
    if r:
        I.event('slice', st, fr, e, v=v, lo=r[0], hi=r[1])
        return I.proj(ref, ('s', r[0], r[1]))
    I.event('index', st, fr, e, v=v, i=i)
    return I.proj(ref, ('i', i))


@model('slice::get', 'str::get', 'VecDeque::get')
def m_get(I, st, a, fr, e, t):
    v, i = D(I, st, a[0]), D(I, st, a[1])
    n = seqlen(v)
    r = rng(I, i, n)
    if r:
        w = slice_(v, r[0], r[1])
        return got(I, ite(AND(le(r[0], r[1]), le(r[1], n)), some(w), NONE), 'slice', v, r[0], r[1], w)
    w = at(v, i)
    return got(I, ite(lt(i, n), some(w), NONE), 'index', v, i, None, w)


def got(I, x, *how):
    if x.op == 'ite':
        I.gets[x] = how
    return x


@model('slice::get_mut', 'VecDeque::get_mut')
def m_getmut(I, st, a, fr, e, t):
    v, i = D(I, st, a[0]), D(I, st, a[1])
    w = I.proj(a[0], ('i', i))
    return got(I, ite(lt(i, seqlen(v)), some(w), NONE), 'index', v, i, None, w)


@model('slice::contains')
def m_contains(I, st, a, fr, e, t):
    v, x = D(I, st, a[0]), D(I, st, a[1])
    return seq_exists(v, lambda y: eq(y, x))


def seq_exists(v, p):
    def f(v):
        if v is EMPTY:
            return FALSE
        if v.op == 'one':
            return p(v.args[0])
        if v.op == 'cat':
            return OR(*[seq_exists(x, p) for x in v.args])
        j = sym('cj', v.id)
        TT.declare_nonneg(j)
        if v.op == 'bc':
            return bexists(v.args[2][0], j, seq_exists(open_(v, j), p))
        return bexists(seqlen(v), j, p(at(v, j)))
    return lift(('sex', p), f, v)


@model('slice::concat')
def m_concat(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    if v.op == 'cat' and all(p.op == 'one' for p in v.args):
        return cat(*[p.args[0] for p in v.args])
    if v.op == 'one':
        return v.args[0]
    j = sym('ccj', v.id)
    TT.declare_nonneg(j)
    return bigcat(seqlen(v), j, at(v, j))


@model('slice::join', 'Join::join')
def m_join(I, st, a, fr, e, t):
    v, sep = D(I, st, a[0]), D(I, st, a[1])
    if v.op == 'one':
        return v.args[0]
    if v is EMPTY:
        return EMPTY
    if v.op == 'cat' and all(p.op == 'one' for p in v.args):
        out = []
        for i, p in enumerate(v.args):
            out += ([sep] if i else []) + [p.args[0]]
        return cat(*out)
    if v.op == 'split' and v.args[1].op == 'kb' and v.args[1].args[0]:
        return mk('replace', v.args[0], v.args[1], sep)
    return mk('join', v, sep)


@model('regex::escape', 'regex_syntax::escape')
def m_reescape(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    if v.op == 'kb':
        return KB(b''.join((b'\\' if bytes([c]) in b'\\.+*?()|[]{}^$#&-~' else b'') + bytes([c]) for c in v.args[0]))
    return v if v is EMPTY else mk('escaped', v)


@model('str::trim', 'str::trim_start', 'str::trim_end', 'str::to_lowercase', 'str::to_uppercase', 'str::lines', 'str::split_whitespace', 'str::bytes_',
       'str::trim_end_matches', 'str::trim_start_matches', 'str::strip_prefix_', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'slice::to_ascii_lowercase', 'slice::to_ascii_uppercase', 'slice::trim_ascii', 'slice::trim_ascii_start', 'slice::trim_ascii_end', 'slice::escape_ascii', 'str::splitn', 'str::rsplit')
def m_sfun(I, st, a, fr, e, t):
    return sfun(simpname(I, e).split('::')[-1], *[D(I, st, x) for x in a])


@model('str::split')
def m_ssplit(I, st, a, fr, e, t):
    sep = D(I, st, a[1])
    if sep.op == 'kc':
        sep = utf8(sep)
    return it(I_seq(split_(D(I, st, a[0]), sep)))


@model('slice::split')
def m_slsplit(I, st, a, fr, e, t):
    x = sym('spx', id(e))
    s2 = st.copy()
    p = I.call_value(a[1], [x], s2, fr, e)
    return it(I_seq(mk('splitp', D(I, st, a[0]), lam(x, p))))


@model('str::split_once', 'str::rsplit_once')
def m_splitonce(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    r = mk('s_' + simpname(I, e).split('::')[-1], v, D(I, st, a[1]))
    return r


@model('str::replacen')
def m_replacen(I, st, a, fr, e, t):
    f = D(I, st, a[1])
    return mk('replacen', D(I, st, a[0]), utf8(f) if f.op == 'kc' else f, D(I, st, a[2]), D(I, st, a[3]))


@model('str::replace')
def m_replace(I, st, a, fr, e, t):
    f, to = D(I, st, a[1]), D(I, st, a[2])
    return mk('replace', D(I, st, a[0]), utf8(f) if f.op == 'kc' else f, to)


@model('str::starts_with', 'slice::starts_with')
def m_startsw(I, st, a, fr, e, t):
    return atom(mk('startswith', D(I, st, a[0]), D(I, st, a[1])))


@model('str::ends_with', 'slice::ends_with')
def m_endsw(I, st, a, fr, e, t):
    return atom(mk('endswith', D(I, st, a[0]), D(I, st, a[1])))


@model('str::strip_prefix', 'slice::strip_prefix')
def m_stripp(I, st, a, fr, e, t):
    v, p = D(I, st, a[0]), D(I, st, a[1])
    return ite(atom(mk('startswith', v, p)), some(slice_(v, seqlen(p), None)), NONE)


@model('slice::strip_suffix', 'str::strip_suffix')
def m_strips(I, st, a, fr, e, t):
    v, p = D(I, st, a[0]), D(I, st, a[1])
    if p.op == 'one':
        last = sub(seqlen(v), mk('k', 1))
        return ite(lt(last, mk('k', 0)), NONE, ite(eq(at(v, last), p.args[0]), some(slice_(v, mk('k', 0), last)), NONE))
    return ite(atom(mk('endswith', v, p)), some(slice_(v, mk('k', 0), sub(seqlen(v), seqlen(p)))), NONE)


@model('str::contains')
def m_scontains(I, st, a, fr, e, t):
    return is_some(mk('sfind', D(I, st, a[0]), D(I, st, a[1])))


@model('str::find')
def m_sfind(I, st, a, fr, e, t):
    return mk('sfind', D(I, st, a[0]), D(I, st, a[1]))


@model('str::rfind')
def m_srfind(I, st, a, fr, e, t):
    return mk('srfind', D(I, st, a[0]), D(I, st, a[1]))


@model('str::match_indices')
def m_matchidx(I, st, a, fr, e, t):
    return it(I_seq(mk('matchidx', D(I, st, a[0]), D(I, st, a[1]))))


@model('str::chars')
def m_chars(I, st, a, fr, e, t):
    return it(I_seq(mk('chars', D(I, st, a[0]))))


@model('str::bytes')
def m_bytes(I, st, a, fr, e, t):
    return it(I_seq(D(I, st, a[0])))


@model('str::char_indices')
def m_chidx(I, st, a, fr, e, t):
    return it(I_seq(mk('charidx', D(I, st, a[0]))))


@model('str::is_char_boundary')
def m_icb(I, st, a, fr, e, t):
    return atom(mk('charboundary', D(I, st, a[0]), a[1]))


@model('str::parse')
def m_parse(I, st, a, fr, e, t):
    ty = ety(I, fr, e)
    tgt = ty_of(fr, ty['args'][0]) if ty.get('args') else None
    v = D(I, st, a[0])
    if tgt and tgt['k'] == 'adt':
        for t2, b in I.p.trait_impls('core::str::traits::FromStr', 'from_str'):
            if t2.get('path') == tgt.get('path'):
                return I.call_def(b['def'], [v], st, fr, e)
    return mk('parse', tgt['s'] if tgt else '?', v)


@model('FromStr::from_str')
def m_fromstr(I, st, a, fr, e, t):
    return mk('parse', '?', D(I, st, a[0]))


ASCII = {
    '': [(0, 127)], '_alphabetic': [(65, 90), (97, 122)], '_uppercase': [(65, 90)], '_lowercase': [(97, 122)], '_digit': [(48, 57)],
    '_alphanumeric': [(48, 57), (65, 90), (97, 122)], '_control': [(0, 31), (127, 127)], '_graphic': [(33, 126)],
    '_hexdigit': [(48, 57), (65, 70), (97, 102)], '_whitespace': [(9, 10), (12, 13), (32, 32)],
    '_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)],
}


@model(*['u8::is_ascii' + x for x in ASCII])
def m_u8ascii(I, st, a, fr, e, t):
    b = D(I, st, a[0])
    out = FALSE
    for lo, hi in ASCII[simpname(I, e).split('is_ascii')[1]]:
        out = OR(out, AND(le(mk('k', lo), b), le(b, mk('k', hi))))
    return out


@model(*['char::is_ascii' + x for x in ASCII], 'char::is_alphabetic', 'char::is_numeric', 'char::is_alphanumeric', 'char::is_whitespace',
       'char::is_uppercase', 'char::is_lowercase', 'char::is_control', 'str::is_ascii', 'slice::is_ascii', 'ascii::is_ascii')
def m_charclass(I, st, a, fr, e, t):
    return atom(mk('charclass', simpname(I, e).split('::')[-1], D(I, st, a[0])))


@model('char::len_utf8')
def m_lenutf8(I, st, a, fr, e, t):
    return TT.declare_nonneg(mk('lenutf8', D(I, st, a[0])))


@model('String::from_utf8', 'str::from_utf8', 'converts::from_utf8')
def m_fromutf8(I, st, a, fr, e, t):
    b = D(I, st, a[0])
    return ite(atom(mk('isutf8', b)), ok(b), err(mk('utf8err', b)))


@model('Utf8Error::error_len')
def m_errlen(I, st, a, fr, e, t):
    b = mk('errof', D(I, st, a[0]))
    return ite(atom(mk('cutoff', b)), NONE, some(TT.declare_nonneg(mk('errlen', b))))


@model('Utf8Error::valid_up_to')
def m_validup(I, st, a, fr, e, t):
    return TT.declare_nonneg(mk('validupto', mk('errof', D(I, st, a[0]))))


@model('FromUtf8Error::utf8_error')
def m_utf8error(I, st, a, fr, e, t):
    return D(I, st, a[0])


@model('FromUtf8Error::into_bytes', 'FromUtf8Error::as_bytes')
def m_ferrbytes(I, st, a, fr, e, t):
    return lift('errbytes', lambda x: x.args[0] if x.op == 'utf8err' else mk('errbytes', x), D(I, st, a[0]))


@model('String::from_utf8_lossy')
def m_lossy(I, st, a, fr, e, t):
    return mk('lossy', D(I, st, a[0]))


@model('String::from_utf8_unchecked', 'converts::from_utf8_unchecked')
def m_unchecked(I, st, a, fr, e, t):
    return D(I, st, a[0])


@model('ToString::to_string')
def m_tostring(I, st, a, fr, e, t):
    ty = base(I, fr, argty(I, fr, e, 0))
    if ty['k'] == '?' and t and isinstance(t[0], int):
        ty = base(I, fr, ty_of(fr, t[0]))
    return display(I, st, D(I, st, a[0]), ty)


def display(I, st, v, ty):
    if ty['k'] == 'str' or (ty.get('path') or '').endswith('string::String') or 'Cow' in (ty.get('path') or ''):
        return uncow(v)
    if ty['k'] == 'char':
        return utf8(v)
    return lift('disp', lambda x: KB(str(x.args[0]).encode()) if x.op == 'k' else mk('disp', x), v)


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def m_fmtarg(I, st, a, fr, e, t):
    ty = ty_of(fr, t[-1]) if t else None
    ty = next((ty_of(fr, x) for x in reversed(t) if isinstance(x, int)), {'k': '?', 's': ''})
    v = D(I, st, a[0])
    b = I.strip(fr.crate, ty)
    if simpname(I, e).endswith('display'):
        return agg('fmtarg', 0, (display(I, st, v, b),))
    return agg('fmtarg', 0, (mk('debug', v),))


@model('Arguments::new')
def m_fmtargs(I, st, a, fr, e, t):
    tm = D(I, st, a[0])
    av = D(I, st, a[1])
    b = kval(tm)
    if b is None:
        return mk('unk', 'fmt', tm, av)
    out, i, k = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(KB(b[i + 1:i + 1 + c]))
            i += 1 + c
        elif c == 0xC0:
            out.append(fld(at(av, mk('k', k)), 0, 0))
            k += 1
            i += 1
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(KB(b[i + 3:i + 3 + n]))
            i += 3 + n
        else:
            return mk('unk', 'fmt', tm, av)
    return cat(*out)


@model('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def m_fmtconst(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return v


@model('fmt::format')
def m_format(I, st, a, fr, e, t):
    return a[0]


@model('Formatter::write_fmt', 'Formatter::write_str', 'Write::write_str', 'Write::write_fmt')
def m_writefmt(I, st, a, fr, e, t):
    if a[0].op == 'ref':
        cur = I.load(st, a[0])
        I.store(st, a[0], cat(cur, D(I, st, a[1])) if cur.op in TT.SEQ else mk('cat', cur, D(I, st, a[1])), fr, e)
    return ok(UNIT)


@model('stdio::_print', 'stdio::_eprint')
def m_print(I, st, a, fr, e, t):
    I.event('print', st, fr, e, v=D(I, st, a[0]))
    return UNIT


# ------------------------------------------------------------ panics
def p_(I, st, a, fr, e, t):
    return I.panic(st, fr, e, mk('msg', *[D(I, st, x) for x in a]))


for n in ('panicking::panic_fmt', 'panicking::panic', 'panicking::unreachable_display', 'panicking::panic_display', 'panicking::assert_failed', 'panicking::panic_str_2015', 'panicking::begin_panic',
          'option::expect_failed', 'panicking::panic_explicit', 'process::exit', 'process::abort'):
    MODELS[n] = p_


@model('panicking::assert_failed')
def m_assertf(I, st, a, fr, e, t):
    return I.panic(st, fr, e, mk('msg', KB(b'assert')))


for n in ('todo', 'unimplemented', 'unreachable', 'panic'):
    MODELS[f'panicking::{n}_default_msg'] = lambda I, st, a, fr, e, t, n=n: I.panic(st, fr, e, mk('msg', KB(n.encode())))


@model('hint::unreachable_unchecked')
def m_unreach(I, st, a, fr, e, t):
    return I.panic(st, fr, e, mk('msg', KB(b'unreachable')))


# ------------------------------------------------------------ maps
def keyref(I, st, x):
    return D(I, st, x)


@model('HashMap::get', 'DashMap::get', 'BTreeMap::get')
def m_mget(I, st, a, fr, e, t):
    m, k = D(I, st, a[0]), D(I, st, a[1])
    return ite(has(m, k), some(mget(m, k)), NONE)


@model('HashMap::get_mut', 'DashMap::get_mut')
def m_mgetmut(I, st, a, fr, e, t):
    m, k = D(I, st, a[0]), D(I, st, a[1])
    return ite(has(m, k), some(I.proj(a[0], ('k', k))), NONE)


@model('HashMap::contains_key', 'HashSet::contains', 'DashMap::contains_key', 'BTreeMap::contains_key', 'BTreeSet::contains')
def m_mhas(I, st, a, fr, e, t):
    return has(D(I, st, a[0]), D(I, st, a[1]))


def mapref(I, st, r):
    if r.op == 'ref':
        v = I.load(st, r)
        if v.op == 'ref':
            return v
    return r


@model('HashMap::insert', 'DashMap::insert', 'BTreeMap::insert')
def m_minsert(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mset(m, k, a[2]), fr, e)
    return ite(has(m, k), some(mget(m, k)), NONE)


@model('HashSet::insert', 'BTreeSet::insert')
def m_sinsert(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mset(m, k, UNIT), fr, e)
    return NOT(has(m, k))


@model('DashMap::alter')
def m_dmalter(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    k = D(I, st, a[1])

    def there(s):
        m = I.load(s, r)
        I.store(s, r, mset(m, k, I.call_value(a[2], [k, mget(m, k)], s, fr, e)), fr, e)
        return UNIT
    I.branch(st, has(I.load(st, r), k), there, lambda s: UNIT)
    return UNIT


@model('HashSet::replace', 'BTreeSet::replace')
def m_sreplace(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mset(m, k, UNIT), fr, e)
    return ite(has(m, k), some(k), NONE)


@model('HashMap::remove', 'DashMap::remove')
def m_mremove(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mdel(m, k), fr, e)
    return ite(has(m, k), some(mget(m, k)), NONE)


@model('HashSet::remove')
def m_sremove(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    m, k = I.load(st, r), D(I, st, a[1])
    I.store(st, r, mdel(m, k), fr, e)
    return has(m, k)


@model('HashMap::entry', 'DashMap::entry', 'BTreeMap::entry')
def m_entry(I, st, a, fr, e, t):
    r, k = mapref(I, st, a[0]), D(I, st, a[1])
    en = agg('ment', 0, (r, k))
    return ite(has(I.load(st, r), k), agg('mentry', 0, (en,)), agg('mentry', 1, (en,)))


def ent(en):
    for _, l in leaves(en):
        if l.op == 'agg':
            en = l.args[2][0] if l.args[0] == 'mentry' else l
            break
    return fld(en, 0, 0), fld(en, 0, 1)


@model('Entry::key', 'OccupiedEntry::key', 'VacantEntry::key', 'VacantEntry::into_key')
def m_ekey(I, st, a, fr, e, t):
    return ent(D(I, st, a[0]))[1]


@model('OccupiedEntry::get')
def m_eget(I, st, a, fr, e, t):
    r, k = ent(D(I, st, a[0]))
    return mget(I.load(st, r), k)


@model('OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_egetmut(I, st, a, fr, e, t):
    r, k = ent(D(I, st, a[0]))
    return I.proj(r, ('k', k))


@model('OccupiedEntry::insert', 'VacantEntry::insert')
def m_einsert(I, st, a, fr, e, t):
    r, k = ent(D(I, st, a[0]))
    m = I.load(st, r)
    I.store(st, r, mset(m, k, a[1]), fr, e)
    return mget(m, k) if simpname(I, e).startswith('Occ') else I.proj(r, ('k', k))


@model('OccupiedEntry::remove')
def m_eremove(I, st, a, fr, e, t):
    r, k = ent(D(I, st, a[0]))
    m = I.load(st, r)
    I.store(st, r, mdel(m, k), fr, e)
    return mget(m, k)


def entry_place(I, st, en, mkv, fr, e):
    r, k = ent(en)
    m = I.load(st, r)
    h = has(m, k)

    def absent(s):
        I.store(s, r, mset(I.load(s, r), k, mkv(s)), fr, e)
        return UNIT
    if h is not TRUE:
        I.branch(st, h, lambda s: UNIT, absent)
    return I.proj(r, ('k', k))


@model('Entry::or_insert')
def m_orins(I, st, a, fr, e, t):
    return entry_place(I, st, a[0], lambda s: a[1], fr, e)


@model('Entry::or_default')
def m_ordef(I, st, a, fr, e, t):
    ty = ety(I, fr, e)
    if ty['k'] == 'ref':
        vt = fr.crate.types[ty['args'][0]]
    else:
        vs = [x for x in ty.get('args', []) if isinstance(x, int)]
        vt = fr.crate.types[vs[1]] if len(vs) > 1 else ty
    return entry_place(I, st, a[0], lambda s: default_of(I, fr, vt, s, e), fr, e)


@model('Entry::or_insert_with')
def m_orinsw(I, st, a, fr, e, t):
    return entry_place(I, st, a[0], lambda s: I.call_value(a[1], [], s, fr, e), fr, e)


@model('Entry::and_modify')
def m_andmod(I, st, a, fr, e, t):
    en = a[0]
    r, k = ent(en)
    h = has(I.load(st, r), k)
    I.branch(st, h, lambda s: I.call_value(a[1], [I.proj(r, ('k', k))], s, fr, e), lambda s: UNIT)
    return en


@model('HashMap::iter', 'HashMap::iter_', 'DashMap::iter', 'HashMap::into_iter', 'BTreeMap::iter')
def m_miter(I, st, a, fr, e, t):
    return it(I_seq(mk('entries', D(I, st, a[0]))))


@model('HashMap::keys', 'HashSet::iter', 'HashMap::into_keys', 'BTreeMap::keys')
def m_mkeys(I, st, a, fr, e, t):
    return it(I_seq(mk('mkeys', D(I, st, a[0]))))


@model('HashMap::drain', 'HashSet::drain')
def m_mdrain(I, st, a, fr, e, t):
    m = I.load(st, a[0])
    I.store(st, a[0], MEMPTY, fr, e)
    return it(I_seq(mk('mkeys' if simpname(I, e) == 'HashSet::drain' else 'entries', m)))


@model('HashMap::values', 'HashMap::into_values', 'BTreeMap::values')
def m_mvals(I, st, a, fr, e, t):
    return it(I_seq(mk('mvals', D(I, st, a[0]))))


@model('RefMulti::key', 'RefMulti::pair')
def m_rmkey(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return fld(v, 0, 0) if simpname(I, e).endswith('key') else v


@model('RefMulti::value')
def m_rmval(I, st, a, fr, e, t):
    return fld(D(I, st, a[0]), 0, 1)


# ------------------------------------------------------------ iterators: sources and adaptors
def TI(I, st, a, fr, e, i=0, ty=None):
    ty = ty or argty(I, fr, e, i)
    if ty['k'] == 'ref' and ty.get('mut') and a[i].op == 'ref':
        w = I.load(st, a[i])
        if is_it(w):
            spent(I, st, a[i], w, fr, e)
            return w
    return to_iter(I, st, a[i], fr, e, ty)


def desc(itv):
    """remaining elements as a descriptor"""
    d, pos = itv.args[2]
    if pos is not ZERO:
        return mk('I_skip', d, pos)
    return d


@model('IntoIterator::into_iter', 'slice::iter', 'Vec::iter', 'array::iter', 'VecDeque::iter', 'BinaryHeap::iter', 'BinaryHeap::into_vec_', 'Option::iter')
def m_intoiter(I, st, a, fr, e, t):
    r = TI(I, st, a, fr, e)
    if is_it(r) and r.args[2][0].op == 'I_local' and a[0].op == 'agg' and not is_it(a[0]):
        # an iterator of this crate is its own IntoIterator
        return a[0]
    return r


@model('slice::iter_mut', 'VecDeque::iter_mut')
def m_itermut(I, st, a, fr, e, t):
    r = a[0]
    if r.op == 'ref' and I.load(st, r).op == 'ref':
        r = I.load(st, r)
    return it(mk('I_mseq', r))


@model('IntoParallelRefIterator::par_iter', 'IntoParallelIterator::into_par_iter', 'ParallelBridge::par_bridge')
def m_par(I, st, a, fr, e, t):
    return it(mk('I_par', desc(TI(I, st, a, fr, e))))


@model('IntoParallelRefMutIterator::par_iter_mut')
def m_parmut(I, st, a, fr, e, t):
    return it(mk('I_par', mk('I_mseq', a[0])))


def chunks(v, k):
    return mk('chunks', v, k)


@model('slice::chunks')
def m_chunks(I, st, a, fr, e, t):
    return it(I_seq(chunks(D(I, st, a[0]), a[1])))


@model('slice::chunks_exact', 'ParallelSlice::par_chunks_exact')
def m_chunksexact(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    n = TT.declare_nonneg(mk('wholechunks', seqlen(v), a[1]))
    d = I_seq(chunks(slice_(v, ZERO, n), a[1]))
    return it(d if 'par' not in simpname(I, e) else mk('I_par', d))


@model('ParallelSlice::par_chunks')
def m_parchunks(I, st, a, fr, e, t):
    return it(mk('I_par', I_seq(chunks(D(I, st, a[0]), a[1]))))


@model('slice::windows', 'ParallelSlice::par_windows')
def m_windows(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    n = sub(add(seqlen(v), ONE), a[1])
    j = sym('wj', v.id)
    TT.declare_nonneg(j)
    d = I_seq(bigcat(imax(n, ZERO), j, one(slice_(v, j, add(j, a[1])))))
    return it(d if 'par' not in simpname(I, e) else mk('I_par', d))


@model('Vec::drain')
def m_drain(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    r = rng(I, a[1], seqlen(v))
    if r is None:
        return NotImplemented
    I.store(st, a[0], cat(slice_(v, ZERO, r[0]), slice_(v, r[1], None)), fr, e)
    return it(I_seq(slice_(v, r[0], r[1])))


def adaptor(name, op, nargs=1):
    def f(I, st, a, fr, e, t):
        d = desc(TI(I, st, a, fr, e))
        if nargs == 0:
            r = mk(op, d)
        else:
            r = mk(op, d, *a[1:])
        if has_par(d):
            r = mk('I_par', unpar(r))
        return it(r)
    MODELS['Iterator::' + name] = f
    MODELS['ParallelIterator::' + name] = f
    MODELS['IndexedParallelIterator::' + name] = f


adaptor('map', 'I_map')
adaptor('filter', 'I_filter')
adaptor('filter_map', 'I_fmap')
adaptor('enumerate', 'I_enum', 0)
adaptor('take', 'I_take')
adaptor('skip', 'I_skip')
adaptor('take_while', 'I_tw')
adaptor('skip_while', 'I_sw')
adaptor('map_while', 'I_mw')
adaptor('step_by', 'I_step')
adaptor('inspect', 'I_inspect')
adaptor('flatten', 'I_flat', 0)


@model('ParallelIterator::map_with', 'ParallelIterator::map_init')
def m_mapwith(I, st, a, fr, e, t):
    # The state is handed from item to item of one worker in an order that is
    # not fixed: only a shared reference is known to be the same for each.
    ty = argty(I, fr, e, 1)
    v = a[1] if ty['k'] == 'ref' and not ty.get('mut') else mk('unk', 'state of a worker', id(e))
    d = mk('I_map', unpar(desc(TI(I, st, a, fr, e))), mk('papp', a[2], v))
    return it(mk('I_par', d))


@model('Iterator::flat_map', 'ParallelIterator::flat_map', 'ParallelIterator::flat_map_iter')
def m_flatmap(I, st, a, fr, e, t):
    d = desc(TI(I, st, a, fr, e))
    r = mk('I_flat', mk('I_map', d, a[1]))
    return it(mk('I_par', unpar(r)) if has_par(d) else r)


@model('Iterator::rev', 'IndexedParallelIterator::rev')
def m_rev(I, st, a, fr, e, t):
    return it(irev(desc(TI(I, st, a, fr, e))))


@model('Iterator::zip', 'IndexedParallelIterator::zip', 'iter::zip')
def m_zip(I, st, a, fr, e, t):
    x, y = desc(TI(I, st, a, fr, e)), desc(TI(I, st, a, fr, e, 1))
    if x.op == 'I_map' and False:
        pass
    return it(mk('I_zip', x, y))


@model('Iterator::chain')
def m_chain(I, st, a, fr, e, t):
    return it(mk('I_chain', desc(TI(I, st, a, fr, e)), desc(TI(I, st, a, fr, e, 1))))


@model('iter::once', 'once::once')
def m_once(I, st, a, fr, e, t):
    return it(I_seq(one(a[0])))


@model('iter::empty', 'empty::empty')
def m_iempty(I, st, a, fr, e, t):
    return it(I_seq(EMPTY))


@model('iter::repeat_n', 'repeat_n::repeat_n')
def m_repn(I, st, a, fr, e, t):
    return it(I_seq(rep_(a[0], a[1])))


@model('Iterator::peekable')
def m_peekable(I, st, a, fr, e, t):
    return a[0]


@model('Peekable::peek')
def m_peek(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    if is_it(v) and indexable(unpar(v.args[2][0])):
        d, pos = v.args[2]
        n, raw = size(I, st, d)
        return I.branch(st, lt(pos, raw), lambda s: some(elem(I, s, d, pos, fr, e)), lambda s: NONE)
    return NotImplemented


@model('Iterator::next', 'DoubleEndedIterator::next_back_')
def m_next(I, st, a, fr, e, t):
    r = next_of(I, st, a[0], fr, e)
    if r is not None:
        return r
    v = I.load(st, a[0])
    if is_it(v):
        # first element of the rest
        d, pos = v.args[2]
        res = first_elem(I, st, v, fr, e)
        I.store(st, a[0], it(mk('I_unk', mk('rest', d, pos))), fr, e)
        return res
    x = v
    I.store(st, a[0], mk('inext', x), fr, e)
    return mk('inextv', x)


def first_elem(I, st, itv, fr, e):
    key = ('brk', 'first', fr.id, id(e))
    box = st

    def cb(x, s):
        I.jump(key, s, some(x))
    run_iter(I, itv, st, cb, fr, e)
    return I.land(key, st, NONE)


@model('Iterator::nth')
def m_nth(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    v = v if is_it(v) else a[0]
    return first_elem(I, st, it(mk('I_skip', desc(v), a[1])), fr, e)


@model('Iterator::last')
def m_ilast(I, st, a, fr, e, t):
    v = TI(I, st, a, fr, e)
    d, pos = v.args[2]
    if indexable(unpar(d)):
        n, raw = size(I, st, unpar(d))
        return I.branch(st, lt(pos, raw), lambda s: some(elem(I, s, unpar(d), sub(raw, ONE), fr, e)), lambda s: NONE)
    return accum(I, st, v, NONE, lambda acc, x, s: some(x), fr, e)


# ------------------------------------------------------------ iterators: consumers
def accum(I, st, itv, init, f, fr, e, tag='acc'):
    r = root(fr.id, tag, id(e))
    st.mem[r] = init

    def cb(x, s):
        v = f(s.mem[r], x, s)
        if not s.dead():
            s.mem[r] = v
    run_iter(I, itv, st, cb, fr, e)
    return st.mem.pop(r, UNIT) if not st.dead() else UNIT


@model('Iterator::for_each', 'ParallelIterator::for_each')
def m_foreach(I, st, a, fr, e, t):
    run_iter(I, TI(I, st, a, fr, e), st, lambda x, s: I.call_value(a[1], [x], s, fr, e), fr, e)
    return UNIT


@model('Iterator::fold')
def m_fold(I, st, a, fr, e, t):
    return accum(I, st, TI(I, st, a, fr, e), a[1], lambda acc, x, s: I.call_value(a[2], [acc, x], s, fr, e), fr, e)


@model('Iterator::reduce')
def m_reduce(I, st, a, fr, e, t):
    def f(acc, x, s):
        c = is_some(acc)
        if c is FALSE:
            return some(x)
        y = I.call_value(a[1], [fld(acc, 1, 0), x], s, fr, e)
        return some(ite(c, y, x))
    return accum(I, st, TI(I, st, a, fr, e), NONE, f, fr, e)


@model('Iterator::sum', 'ParallelIterator::sum')
def m_sum(I, st, a, fr, e, t):
    k = ety(I, fr, e)['k']
    if k == 'float':
        return accum(I, st, TI(I, st, a, fr, e), KF(0.0), lambda acc, x, s: fadd(acc, D(I, s, x)), fr, e)
    return accum(I, st, TI(I, st, a, fr, e), ZERO, lambda acc, x, s: add(acc, D(I, s, x)), fr, e)


@model('Iterator::product')
def m_product(I, st, a, fr, e, t):
    k = ety(I, fr, e)['k']
    f = fmul if k == 'float' else mul
    return accum(I, st, TI(I, st, a, fr, e), KF(1.0) if k == 'float' else ONE, lambda acc, x, s: f(acc, D(I, s, x)), fr, e)


@model('Iterator::count', 'ParallelIterator::count', 'ExactSizeIterator::len')
def m_count(I, st, a, fr, e, t):
    v = TI(I, st, a, fr, e)
    d, pos = v.args[2]
    d = unpar(d)
    if pos is ZERO and indexable(d):
        return size(I, st, d)[0]
    return accum(I, st, v, ZERO, lambda acc, x, s: add(acc, ONE), fr, e)


def by_mut(I, st, a, fr, e):
    """the iterator of a method taking it by value or by &mut"""
    itv = a[0]
    if a[0].op == 'ref':
        w = I.load(st, a[0])
        if is_it(w):
            itv = w
            spent(I, st, a[0], w, fr, e)
    return to_iter(I, st, itv, fr, e, argty(I, fr, e, 0))


def spent(I, st, r, w, fr, e):
    """what is left of an iterator a search went through is not modelled"""
    d, pos = w.args[2]
    I.store(st, r, it(mk('I_unk', mk('rest', d, pos, id(e)))), fr, e)


def search(I, st, a, fr, e, body, dflt):
    key = ('brk', 'srch', fr.id, id(e))
    itv = by_mut(I, st, a, fr, e)
    run_iter(I, itv, st, lambda x, s: body(x, s, key), fr, e)
    return I.land(key, st, dflt)


@model('Iterator::any', 'ParallelIterator::any')
def m_any(I, st, a, fr, e, t):
    def body(x, s, key):
        c = I.call_value(a[1], [x], s, fr, e)
        if not s.dead():
            I.branch(s, c, lambda u: I.jump(key, u, TRUE), lambda u: UNIT)
    return search(I, st, a, fr, e, body, FALSE)


@model('Iterator::all', 'ParallelIterator::all')
def m_all(I, st, a, fr, e, t):
    def body(x, s, key):
        c = I.call_value(a[1], [x], s, fr, e)
        if not s.dead():
            I.branch(s, c, lambda u: UNIT, lambda u: I.jump(key, u, FALSE))
    return search(I, st, a, fr, e, body, TRUE)


@model('Iterator::find', 'ParallelIterator::find_first')
def m_find(I, st, a, fr, e, t):
    def body(x, s, key):
        c = I.call_value(a[1], [x], s, fr, e)
        if not s.dead():
            I.branch(s, c, lambda u: I.jump(key, u, some(x)), lambda u: UNIT)
    return search(I, st, a, fr, e, body, NONE)


@model('Iterator::find_map', 'ParallelIterator::find_map_first')
def m_findmap(I, st, a, fr, e, t):
    def body(x, s, key):
        r = I.call_value(a[1], [x], s, fr, e)
        if not s.dead():
            I.branch(s, is_some(r), lambda u: I.jump(key, u, r), lambda u: UNIT)
    return search(I, st, a, fr, e, body, NONE)


@model('Iterator::position')
def m_position(I, st, a, fr, e, t):
    v = by_mut(I, st, a, fr, e)
    a2 = [it(mk('I_enum', desc(v)))] + list(a[1:])

    def body(x, s, key):
        c = I.call_value(a[1], [fld(x, 0, 1)], s, fr, e)
        if not s.dead():
            I.branch(s, c, lambda u: I.jump(key, u, some(fld(x, 0, 0))), lambda u: UNIT)
    return search(I, st, a2, fr, e, body, NONE)


def best(I, st, a, fr, e, keyf, want_max, cmpf=None):
    v = TI(I, st, a, fr, e)

    def f(acc, x, s):
        y = fld(acc, 1, 0)
        if cmpf:
            c = cmpf(y, x, s)
        else:
            c = mk('cmp', keyf(y, s), keyf(x, s)) if keyf else cmp_(I, s, y, x, elem_ty(I, fr, e), fr, e)
        better = NOT(eq(c, GREATER)) if want_max else eq(c, GREATER)
        return some(ite(is_some(acc), ite(better, x, y), x))
    return accum(I, st, v, NONE, f, fr, e)


def elem_ty(I, fr, e):
    ty = ety(I, fr, e)
    if ty.get('path') == OPT:
        return I.strip(fr.crate, fr.crate.types[ty['args'][0]])
    return {'k': '?'}


MODELS['Iterator::max'] = lambda I, st, a, fr, e, t: best(I, st, a, fr, e, None, True)
MODELS['Iterator::min'] = lambda I, st, a, fr, e, t: best(I, st, a, fr, e, None, False)
MODELS['Iterator::max_by'] = lambda I, st, a, fr, e, t: best(I, st, a, fr, e, None, True, lambda x, y, s: I.call_value(a[1], [x, y], s, fr, e))
MODELS['Iterator::min_by'] = lambda I, st, a, fr, e, t: best(I, st, a, fr, e, None, False, lambda x, y, s: I.call_value(a[1], [x, y], s, fr, e))


def _bykey(want):
    def f(I, st, a, fr, e, t):
        kt = next((ty_of(fr, x) for x in t[1:] if isinstance(x, int) and ty_of(fr, x)['k'] in ('uint', 'int', 'float')), None)

        def c(x, y, s):
            p, q = I.call_value(a[1], [x], s, fr, e), I.call_value(a[1], [y], s, fr, e)
            return cmp_(I, s, p, q, kt, fr, e) if kt else mk('cmp', p, q)
        return best(I, st, a, fr, e, None, want, c)
    return f


MODELS['Iterator::max_by_key'] = _bykey(True)
MODELS['Iterator::min_by_key'] = _bykey(False)


def from_seq(I, st, d, ty, fr, e):
    """collect descriptor d into type ty"""
    return collect_into(I, st, it(d), ty, fr, e)


def collect_into(I, st, itv, ty, fr, e):
    p = ty.get('path') or ''
    if p.endswith(('vec::Vec', 'vec_deque::VecDeque')) and itv.args[2][0].op == 'I_seq' and itv.args[2][1] is ZERO:
        return itv.args[2][0].args[0]
    if p in (RES, OPT):
        inner = fr.crate.types[ty['args'][0]]
        key = ('brk', 'coll', fr.id, id(e))
        add_ = adder(I, inner, fr, e)

        def f(acc, x, s):
            if p == RES:
                I.branch(s, is_ok(x), lambda u: UNIT, lambda u: I.jump(key, u, err(fld(restrict(x, u.pc), 1, 0))))
                if s.dead():
                    return UNIT
                return add_(s.mem[root(fr.id, 'acc', id(e))], fld(restrict(x, s.pc), 0, 0), s)
            I.branch(s, is_some(x), lambda u: UNIT, lambda u: I.jump(key, u, NONE))
            if s.dead():
                return UNIT
            return add_(s.mem[root(fr.id, 'acc', id(e))], fld(restrict(x, s.pc), 1, 0), s)
        v = accum(I, st, itv, empty_of(inner), f, fr, e)
        return I.land(key, st, ok(v) if p == RES else some(v))
    a = adder(I, ty, fr, e)
    return accum(I, st, itv, empty_of(ty), a, fr, e)


def empty_of(ty):
    p = ty.get('path') or ''
    if 'Map' in p or 'Set' in p:
        return MEMPTY
    if ty['k'] == 'tuple' and not ty['args']:
        return UNIT
    return EMPTY


def adder(I, ty, fr, e):
    p = ty.get('path') or ''
    if 'Map' in p:
        return lambda acc, x, s: mset(acc, fld(x, 0, 0), fld(x, 0, 1))
    if 'Set' in p:
        return lambda acc, x, s: mset(acc, x, UNIT)
    if p.endswith('string::String'):
        return lambda acc, x, s: cat(acc, D(I, s, x) if D(I, s, x).op in ('cat', 'kb', 'slice', 'bc') else mk('strpiece', x))
    if ty['k'] == 'tuple' and not ty['args']:
        return lambda acc, x, s: UNIT
    return lambda acc, x, s: cat(acc, one(x))


@model('Iterator::collect', 'ParallelIterator::collect', 'FromIterator::from_iter', 'Vec::from_iter')
def m_collect(I, st, a, fr, e, t):
    return collect_into(I, st, TI(I, st, a, fr, e), ety(I, fr, e), fr, e)


@model('Iterator::partition')
def m_partition(I, st, a, fr, e, t):
    def f(acc, x, s):
        c = atom(I.call_value(a[1], [x], s, fr, e))
        l, r = fld(acc, 0, 0), fld(acc, 0, 1)
        return tup(cat(l, ite(c, one(x), EMPTY)), cat(r, ite(c, EMPTY, one(x))))
    return accum(I, st, TI(I, st, a, fr, e), tup(EMPTY, EMPTY), f, fr, e)


@model('Iterator::unzip')
def m_unzip(I, st, a, fr, e, t):
    return accum(I, st, TI(I, st, a, fr, e), tup(EMPTY, EMPTY), lambda acc, x, s: tup(cat(fld(acc, 0, 0), one(fld(x, 0, 0))), cat(fld(acc, 0, 1), one(fld(x, 0, 1)))), fr, e)


@model('Extend::extend')
def m_extend(I, st, a, fr, e, t):
    r = mapref(I, st, a[0])
    ty = base(I, fr, argty(I, fr, e, 0))
    add_ = adder(I, ty, fr, e)

    def cb(x, s):
        v = add_(I.load(s, r), x, s)
        I.store(s, r, v, fr, e)
    run_iter(I, TI(I, st, a, fr, e, 1), st, cb, fr, e)
    return UNIT


@model('Vec::retain', 'VecDeque::retain', 'Vec::retain_mut')
def m_retain(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    r = accum(I, st, it(I_seq(v)), EMPTY, lambda acc, x, s: cat(acc, ite(atom(I.call_value(a[1], [x], s, fr, e)), one(x), EMPTY)), fr, e)
    I.store(st, a[0], r, fr, e)
    return UNIT


@model('Vec::dedup')
def m_dedup(I, st, a, fr, e, t):
    I.store(st, a[0], mk('dedup', I.load(st, a[0])), fr, e)
    return UNIT


@model('mem::discriminant')
def m_discr(I, st, a, fr, e, t):
    return mk('discr', D(I, st, a[0]))


@model('Vec::dedup_by_key')
def m_dedupk(I, st, a, fr, e, t):
    x = sym('ddx', id(e))
    I.store(st, a[0], mk('dedup', I.load(st, a[0]), lam(x, I.call_value(a[1], [x], st.copy(), fr, e))), fr, e)
    return UNIT


@model('Vec::dedup_by')
def m_dedupb(I, st, a, fr, e, t):
    x, y = sym('ddx', id(e)), sym('ddy', id(e))
    I.store(st, a[0], mk('dedup', I.load(st, a[0]), bind('lam2', (x, y), I.call_value(a[1], [x, y], st.copy(), fr, e))), fr, e)
    return UNIT


# ------------------------------------------------------------ sorting, randomness
def cmp_lam(I, st, f, fr, e, kind):
    x, y = sym('srtx', id(e)), sym('srty', id(e))
    s = st.copy()
    if kind == 'cmp':
        r = I.call_value(f, [x, y], s, fr, e)
    else:
        p, q = I.call_value(f, [x], s, fr, e), I.call_value(f, [y], s, fr, e)
        r = None
        ct = closure_ret(I, f)
        r = cmp_(I, s, p, q, ct, fr_of(I, f, fr), e) if ct else mk('cmp', p, q)
    return bind('lam2', (x, y), r)


def closure_ret(I, f):
    if f.op == 'agg' and f.args[0] == 'clos':
        b = I.p.bodies.get(f.args[1][0])
        if b:
            return b['crate'].types[b['ret']] if 'ret' in b and isinstance(b['ret'], int) else b['crate'].types[b['body']['ty']]
    return None


def fr_of(I, f, fr):
    b = I.p.bodies.get(f.args[1][0])

    class F:
        pass
    x = F()
    x.crate = b['crate']
    x.id = fr.id
    x.body = fr.body
    x.env = None
    x.depth = 0
    return x


def sort_model(kind, stable):
    def f(I, st, a, fr, e, t):
        v = I.load(st, a[0])
        if kind == 'ord':
            ty = base(I, fr, argty(I, fr, e, 0))
            et = fr.crate.types[ty['args'][0]] if ty.get('args') else {'k': '?'}
            x, y = sym('srtx', id(e)), sym('srty', id(e))
            l = bind('lam2', (x, y), cmp_(I, st, x, y, I.strip(fr.crate, et), fr, e))
        else:
            l = cmp_lam(I, st, a[1], fr, e, kind)
        I.store(st, a[0], mk('sorted', v, l), fr, e)
        return UNIT
    return f


for n, k in (('sort', 'ord'), ('sort_unstable', 'ord'), ('sort_by', 'cmp'), ('sort_unstable_by', 'cmp'), ('sort_by_key', 'key'), ('sort_unstable_by_key', 'key'), ('sort_by_cached_key', 'key')):
    MODELS['slice::' + n] = sort_model(k, True)
    MODELS['ParallelSliceMut::par_' + n] = sort_model(k, True)


@model('BinaryHeap::into_sorted_vec')
def m_isv(I, st, a, fr, e, t):
    return mk('sorted', D(I, st, a[0]), mk('natural'))


@model('BinaryHeap::into_vec')
def m_hiv(I, st, a, fr, e, t):
    return mk('heapitems', D(I, st, a[0]))


def rand_term(I, e, what, *a):
    idx = []
    for lid, par in I.lstack:
        idx.append(sym('j', lid))
    return mk('rand', what, id(e), *idx, *a)


@model('rand::random')
def m_random(I, st, a, fr, e, t):
    I.event('random', st, fr, e)
    return rand_term(I, e, 'random')


@model('Rng::gen_range', 'Rng::random_range')
def m_genrange(I, st, a, fr, e, t):
    I.event('random', st, fr, e)
    return rand_term(I, e, 'range', D(I, st, a[1]))


@model('Rng::gen_bool', 'Rng::random_bool', 'Rng::gen', 'Rng::random')
def m_genbool(I, st, a, fr, e, t):
    I.event('random', st, fr, e)
    nm = simpname(I, e)
    r = rand_term(I, e, nm.split('::')[-1], *[D(I, st, x) for x in a[1:]])
    if nm.endswith('bool'):
        p = D(I, st, a[1])
        return flt(rand_term(I, e, 'random'), p)
    return rand_term(I, e, 'random')


@model('thread::thread_rng', 'rngs::thread_rng', 'rng')
def m_rng(I, st, a, fr, e, t):
    return mk('rng')


@model('SliceRandom::shuffle')
def m_shuffle(I, st, a, fr, e, t):
    I.event('random', st, fr, e)
    I.store(st, a[0], mk('shuffled', I.load(st, a[0])), fr, e)
    return UNIT


# ------------------------------------------------------------ locks and atomics
@model('RwLock::write', 'Mutex::lock')
def m_lock(I, st, a, fr, e, t):
    I.event('lock', st, fr, e, ref=a[0], how='write')
    return ok(a[0])


@model('RwLock::try_write', 'Mutex::try_lock', 'RwLock::try_read')
def m_trylock(I, st, a, fr, e, t):
    """whether the lock is free depends on what other threads do"""
    how = 'read' if simpname(I, e).endswith('read') else 'write'
    I.event('lock', st, fr, e, ref=a[0], how=how)
    free = atom(mk('trylock', (fr.body['def'], e.get('l')) if isinstance(getattr(fr, 'body', None), dict) else e.get('l'), *[j for j in I.binders(st)] if hasattr(I, 'binders') else ()))
    return ite(free, ok(a[0]), err(mk('call', 'would_block', ())))


@model('RwLock::read')
def m_rlock(I, st, a, fr, e, t):
    I.event('lock', st, fr, e, ref=a[0], how='read')
    return ok(a[0])


@model('RwLock::into_inner', 'Mutex::into_inner')
def m_lockinner(I, st, a, fr, e, t):
    return ok(D(I, st, a[0]))


@model('Arc::try_unwrap', 'Rc::try_unwrap')
def m_tryunwrap(I, st, a, fr, e, t):
    return ok(D(I, st, a[0]))


@model('Arc::into_inner')
def m_arcinner(I, st, a, fr, e, t):
    return some(D(I, st, a[0]))


@model('Atomic::fetch_add', 'AtomicUsize::fetch_add', 'AtomicU64::fetch_add', 'AtomicU32::fetch_add')
def m_fetchadd(I, st, a, fr, e, t):
    v = I.load(st, a[0])
    I.event('atomic', st, fr, e, ref=a[0], n=a[1])
    I.store(st, a[0], add(v, a[1]), fr, e)
    return v


@model('Atomic::new', 'AtomicUsize::new', 'AtomicBool::new', 'AtomicU64::new')
def m_atnew(I, st, a, fr, e, t):
    return a[0]


@model('Atomic::load', 'AtomicUsize::load', 'AtomicBool::load', 'Atomic::into_inner')
def m_atload(I, st, a, fr, e, t):
    return I.load(st, a[0])


@model('Atomic::store', 'AtomicBool::store')
def m_atstore(I, st, a, fr, e, t):
    I.store(st, a[0], a[1], fr, e)
    return UNIT


# ------------------------------------------------------------ time, threads, environment
def opaque(name):
    def f(I, st, a, fr, e, t):
        vals = [D(I, st, x) for x in a]
        r = mk('call', name, *vals)
        I.event('call', st, fr, e, name=name, args=vals, raw=list(a), ret=r)
        return r
    return f


for n in ('Instant::now', 'Instant::elapsed', 'Instant::duration_since', 'Duration::as_secs', 'Duration::as_secs_f64', 'Duration::as_millis', 'Duration::from_millis', 'Duration::from_secs',
          'Duration::as_secs_f32', 'Duration::as_nanos', 'Duration::as_micros', 'rayon_core::current_num_threads', 'thread::current_num_threads', 'env::var', 'Builder::init', 'Builder::from_default_env', 'functions::sleep', 'functions::spawn',
          'thread::sleep', 'thread::spawn', 'thread::available_parallelism', 'env_logger::init'):
    MODELS[n] = opaque(n)


@model('fs::write')
def m_fswrite(I, st, a, fr, e, t):
    p, c = D(I, st, a[0]), D(I, st, a[1])
    r = mk('fswrite', p, c)
    I.event('fs', st, fr, e, name='write', path=p, data=c, ret=r)
    return r


@model('fs::read', 'fs::read_to_string')
def m_fsread(I, st, a, fr, e, t):
    p = D(I, st, a[0])
    nm = simpname(I, e)
    r = mk('fsread', nm.split('::')[-1], p)
    I.event('fs', st, fr, e, name='read', path=p, ret=r)
    return r


for n in ('fs::remove_file', 'fs::rename', 'fs::create_dir_all', 'fs::create_dir', 'fs::remove_dir_all', 'fs::copy', 'File::create', 'File::create_new', 'File::open', 'fs::remove_dir', 'fs::hard_link', 'fs::set_permissions'):
    def g(I, st, a, fr, e, t, n=n):
        vals = [D(I, st, x) for x in a]
        r = mk('fsop', n, *vals)
        I.event('fs', st, fr, e, name=n, path=vals[0] if vals else None, data=None, ret=r)
        return r
    MODELS[n] = g


# the options a file is opened with: write, append, truncate, create, create_new, read
OPENFLAGS = ('write', 'append', 'truncate', 'create', 'create_new', 'read')


@model('OpenOptions::new', 'File::options')
def m_openopt(I, st, a, fr, e, t):
    return mk('openopt', *[FALSE for _ in OPENFLAGS])


for n in OPENFLAGS:
    def of(I, st, a, fr, e, t, n=n):
        v = D(I, st, a[0])
        if not (isinstance(v, T) and v.op == 'openopt'):
            return I.unknown('OpenOptions::' + n, fr, e)
        I.store(st, a[0], mk('openopt', *[a[1] if f == n else x for f, x in zip(OPENFLAGS, v.args)]), fr, e)
        return a[0]
    MODELS['OpenOptions::' + n] = of


@model('OpenOptions::open')
def m_open(I, st, a, fr, e, t):
    o, p = D(I, st, a[0]), D(I, st, a[1])
    r = mk('fsop', 'OpenOptions::open', o, p, mk('k', len(I.events)))
    I.event('fs', st, fr, e, name='OpenOptions::open', path=p, data=None, flags=o, ret=r)
    return r


@model('BufWriter::new', 'LineWriter::new')
def m_bufw(I, st, a, fr, e, t):
    return mk('bufw', D(I, st, a[0]))


@model('BufWriter::with_capacity')
def m_bufwc(I, st, a, fr, e, t):
    return mk('bufw', D(I, st, a[1]))


@model('Write::write_all', 'Write::write', 'Write::flush', 'File::sync_all', 'File::sync_data', 'BufWriter::into_inner', 'Write::by_ref')
def m_wall(I, st, a, fr, e, t):
    n = simpname(I, e)
    if n.endswith('by_ref'):
        return a[0]
    vals = [D(I, st, x) for x in a]
    r = mk('fsop', n, *vals, mk('k', len(I.events)))
    I.event('fs', st, fr, e, name=n, path=vals[0], data=vals[1] if len(vals) > 1 else None, ret=r)
    return r


@model('ser::to_writer', 'ser::to_writer_pretty')
def m_towriter(I, st, a, fr, e, t):
    w, v = D(I, st, a[0]), D(I, st, a[1])
    r = mk('fsop', 'to_writer', w, v, mk('k', len(I.events)))
    I.event('fs', st, fr, e, name='to_writer', path=w, data=mk('tojson', v), ret=r)
    return r


@model('Path::new', 'PathBuf::from', 'Path::to_path_buf', 'Path::to_owned')
def m_wrap(I, st, a, fr, e, t):
    return D(I, st, a[0])


for n in ('Path::exists', 'Path::is_file', 'Path::is_dir', 'Path::join', 'Path::with_extension', 'Path::parent', 'Path::file_name', 'Path::extension', 'Path::file_stem', 'fs::metadata', 'fs::exists', 'Path::try_exists', 'fs::canonicalize'):
    def pf(I, st, a, fr, e, t, n=n):
        return mk('pathop', n, *[D(I, st, x) for x in a])
    MODELS[n] = pf


@model('ser::to_string', 'ser::to_string_pretty', 'ser::to_vec', 'ser::to_vec_pretty')
def m_tojson(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return mk('tojson', v)


@model('de::from_str', 'de::from_slice')
def m_fromjson(I, st, a, fr, e, t):
    ty = ety(I, fr, e)
    tgt = ty_of(fr, ty['args'][0]) if ty.get('args') else None
    return mk('fromjson', tgt['s'] if tgt else '?', D(I, st, a[0]))


@model('de::from_reader')
def m_fromreader(I, st, a, fr, e, t):
    ty = ety(I, fr, e)
    tgt = ty_of(fr, ty['args'][0]) if ty.get('args') else None
    return mk('fromreader', tgt['s'] if tgt else '?', D(I, st, a[0]))


@model('Regex::new')
def m_renew(I, st, a, fr, e, t):
    p = D(I, st, a[0])
    return ite(atom(mk('reok', p)), ok(mk('regex', p)), err(mk('reerr', p)))


@model('Regex::as_str')
def m_reas(I, st, a, fr, e, t):
    v = D(I, st, a[0])
    return lift('restr', lambda x: x.args[0] if x.op == 'regex' else mk('restr', x), v)


@model('Regex::is_match')
def m_reis(I, st, a, fr, e, t):
    v, s = D(I, st, a[0]), D(I, st, a[1])
    r = lift('rematch', lambda x, y: mk('rematch', x, y), v, s)
    return ite(is_ok_(I, fr, e, r)[0], is_ok_(I, fr, e, r)[1], is_ok_(I, fr, e, r)[2]) if ety(I, fr, e).get('path') == RES else atom(r)


def is_ok_(I, fr, e, r):
    c = atom(mk('reran', r))
    return c, ok(atom(r)), err(mk('rerunerr', r))


@model('Regex::find_iter')
def m_refind(I, st, a, fr, e, t):
    return it(I_seq(mk('finditer', D(I, st, a[0]), D(I, st, a[1]))))


@model('Regex::captures_iter')
def m_recaps(I, st, a, fr, e, t):
    return it(I_seq(mk('finditer', D(I, st, a[0]), D(I, st, a[1]))))


@model('Captures::get')
def m_capget(I, st, a, fr, e, t):
    x, k = D(I, st, a[0]), D(I, st, a[1])
    return some(x) if k is ZERO else mk('capget', x, k)


@model('Captures::len')
def m_caplen(I, st, a, fr, e, t):
    return TT.declare_nonneg(mk('caplen', D(I, st, a[0])))


@model('ptr::eq', 'ptr::addr_eq')
def m_ptreq(I, st, a, fr, e, t):
    # the same place or not: what is there may have changed since
    x, y = D(I, st, a[0]), D(I, st, a[1])
    return atom(mk('ptreq', x, y)) if x is not y else TRUE


def nth_model(kind):
    def f(I, st, a, fr, e, t):
        v = I.load(st, a[0])
        l = cmp_lam(I, st, a[2], fr, e, kind) if kind != 'ord' else mk('natural')
        I.store(st, a[0], mk('partsorted', v, D(I, st, a[1]), l), fr, e)
        return mk('unk', 'parts', v)
    return f


for n, k in (('select_nth_unstable', 'ord'), ('select_nth_unstable_by', 'cmp'), ('select_nth_unstable_by_key', 'key')):
    MODELS['slice::' + n] = nth_model(k)


@model('Regex::find')
def m_refind1(I, st, a, fr, e, t):
    f = mk('finditer', D(I, st, a[0]), D(I, st, a[1]))
    return ite(lt(ZERO, seqlen(f)), some(at(f, ZERO)), NONE)


@model('Match::start')
def m_mstart(I, st, a, fr, e, t):
    return mk('mstart', D(I, st, a[0]))


@model('Match::end')
def m_mend(I, st, a, fr, e, t):
    return mk('mend', D(I, st, a[0]))


for f in ('nfc', 'nfd', 'nfkc', 'nfkd'):
    MODELS['UnicodeNormalization::' + f] = lambda I, st, a, fr, e, t, f=f: it(I_seq(mk('chars', mk(f, D(I, st, a[0])))))


for f in ('nfc', 'nfd', 'nfkc', 'nfkd'):
    MODELS['quick_check::is_' + f] = lambda I, st, a, fr, e, t, f=f: atom(mk('isnf', f, D(I, st, a[0])))
    MODELS['quick_check::is_%s_quick' % f] = lambda I, st, a, fr, e, t, f=f: mk('nfquick', f, whole_text(desc(TI(I, st, a, fr, e))))


def whole_text(d):
    """the text whose characters are gone through"""
    if d.op == 'I_seq' and d.args[0].op == 'chars':
        return d.args[0].args[0]
    return mk('unk', 'iter', d)


@model('Engine::encode')
def m_b64e(I, st, a, fr, e, t):
    return mk('b64', D(I, st, a[0]), D(I, st, a[1]))


@model('Engine::decode')
def m_b64d(I, st, a, fr, e, t):
    return mk('b64dec', D(I, st, a[0]), D(I, st, a[1]))


@model('RangeInclusive::new')
def m_ri(I, st, a, fr, e, t):
    return agg('core::ops::range::RangeInclusive', 0, (a[0], a[1]))


@model('RangeInclusive::contains', 'Range::contains')
def m_rcont(I, st, a, fr, e, t):
    r, x = D(I, st, a[0]), D(I, st, a[1])
    k = base(I, fr, argty(I, fr, e, 1))['k']
    lo, hi = fld(r, 0, 0), fld(r, 0, 1)
    inc = 'Inclusive' in simpname(I, e)
    if k == 'float':
        return AND(fle(lo, x), fle(x, hi) if inc else flt(x, hi))
    if k in ('uint', 'int'):
        return AND(le(lo, x), le(x, hi) if inc else lt(x, hi))
    return NotImplemented


@model('Box::new_uninit')
def m_uninit(I, st, a, fr, e, t):
    return mk('uninit')


@model('intrinsics::write_box_via_move')
def m_wbvm(I, st, a, fr, e, t):
    return a[1]


@model('Box::new', 'Pin::new')
def m_boxnew(I, st, a, fr, e, t):
    return a[0]


@model('Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve', 'HashMap::reserve', 'Vec::reserve_exact', 'String::shrink_to_fit')
def m_reserve(I, st, a, fr, e, t):
    return UNIT


@model('Vec::capacity', 'String::capacity')
def m_cap(I, st, a, fr, e, t):
    return TT.declare_nonneg(mk('capacity', D(I, st, a[0])))


# ------------------------------------------------------------ serde
@model('Serializer::serialize_struct')
def m_serstruct(I, st, a, fr, e, t):
    return ok(agg('serstruct', 0, (D(I, st, a[1]), EMPTY)))


@model('SerializeStruct::serialize_field')
def m_serfield(I, st, a, fr, e, t):
    cur = I.load(st, a[0])
    fs = fld(cur, 0, 1)
    v = D(I, st, a[2])
    I.store(st, a[0], agg('serstruct', 0, (fld(cur, 0, 0), cat(fs, one(tup(D(I, st, a[1]), v))))), fr, e)
    return ok(UNIT)


@model('SerializeStruct::end')
def m_serend(I, st, a, fr, e, t):
    return ok(mk('serdoc', D(I, st, a[0])))


for n in ('Serializer::serialize_str', 'Serializer::serialize_map', 'SerializeMap::serialize_entry', 'SerializeMap::end'):
    MODELS[n] = opaque(n)


@model('MapAccess::next_key')
def m_nextkey(I, st, a, fr, e, t):
    m = I.load(st, a[0])
    I.store(st, a[0], mk('afterkey', m), fr, e)
    ty = ety(I, fr, e)
    tgt = ty_of(fr, ty['args'][0]) if ty.get('args') else None
    return mk('nk', m, tgt['s'] if tgt else '?')


@model('MapAccess::next_value')
def m_nextvalue(I, st, a, fr, e, t):
    ty = ety(I, fr, e)
    tgt = ty_of(fr, ty['args'][0]) if ty.get('args') else None
    m = I.load(st, a[0])
    I.store(st, a[0], mk('afterval', m), fr, e)
    return mk('nv', m, tgt['s'] if tgt else '?')


for n in ('Error::missing_field', 'Error::unknown_field', 'Error::unknown_variant', 'Error::custom', 'Error::invalid_value', 'Error::invalid_type', 'Error::duplicate_field', 'Error::invalid_length',
          'Deserializer::deserialize_struct', 'Deserializer::deserialize_map', 'Deserializer::deserialize_any', 'Deserializer::deserialize_str', 'Deserializer::deserialize_string'):
    MODELS[n] = opaque(n)


# ------------------------------------------------------------ python
@model('PyBytes::new', 'PyBytes::new_bound')
def m_pybytes(I, st, a, fr, e, t):
    return D(I, st, a[1])


@model('PyErr::new')
def m_pyerrnew(I, st, a, fr, e, t):
    ty = ty_of(fr, t[0]) if t else None
    return mk('pyerr', ty['s'].split('::')[-1] if ty else '?', *[D(I, st, x) for x in a])


@model('Python::allow_threads')
def m_allowthreads(I, st, a, fr, e, t):
    return I.call_value(a[1], [], st, fr, e)


for n in [x + '::new_err' for x in ('PyException', 'PyIOError', 'PyOSError', 'PyRuntimeError', 'PyValueError', 'PyKeyError', 'PyIndexError', 'PyTypeError', 'PyFileNotFoundError', 'PyPermissionError', 'PyUnicodeError', 'PyAttributeError', 'PyNotImplementedError', 'PyEnvironmentError')]:
    MODELS[n] = lambda I, st, a, fr, e, t, n=n: mk('pyerr', n.split('::')[0], *[D(I, st, x) for x in a])
for n in ('PyModule::add', 'PyModule::add_class', 'Python::get_type', 'Python::get_type_bound', 'Py::extract', 'PyModule::add_function', 'PyAny::extract', 'Bound::extract'):
    MODELS[n] = opaque(n)


@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_fncall(I, st, a, fr, e, t):
    f = D(I, st, a[0])
    x = a[1]
    if x.op == 'agg' and x.args[0] == 'tup':
        args = list(x.args[2])
    else:
        return NotImplemented
    return I.call_value(f, args, st, fr, e)
