"""Hash-consed terms. Conditional values are decision diagrams: `ite` nodes over
boolean atoms in creation order, with leaf terms at the bottom; booleans are
diagrams with TRUE/FALSE leaves. Integers are kept in linear normal form,
sequences as concatenations, loops as binders with canonical bound variables, so
that equal behaviour gets equal terms."""
import sys
from fractions import Fraction
sys.setrecursionlimit(200000)

_tab = {}
_cnt = [0]
E0 = frozenset()


class T:
    __slots__ = ('op', 'args', 'id', 'fam', 'fv', 'h', 'unk', '__weakref__')

    def __repr__(self):
        return show(self)


def _sub(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _sub(a)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.id = op, args, _cnt[0]
    _cnt[0] += 1
    fv = None
    h = 0
    unk = op == 'unk'
    for s in _sub(args):
        if s.fv:
            fv = s.fv if fv is None or fv is s.fv else (fv | s.fv)
        if s.h > h:
            h = s.h
        if s.unk:
            unk = True
    t.fv = fv or E0
    if op == 'sym' or op == 'bv':
        t.fv = t.fv | {t}
    t.h = h
    t.unk = unk
    if op == 'ite':
        f = family(args[0])
        t.fam = args[1].fam | args[2].fam | ({f} if f is not None else set())
    else:
        t.fam = E0
    _tab[key] = t
    return t


# floats and ints must not collide as dict keys (1 == 1.0 == True)
def K(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return mk('k', v)
    if isinstance(v, float):
        return KF(v)
    if isinstance(v, str):
        return KB(v.encode())
    if isinstance(v, bytes):
        return KB(v)
    raise TypeError(v)


def KF(v):
    v = float(v)
    if v == 0:
        v = 0.0
    return mk('kf', repr(v))


def KB(b):
    return mk('cat') if not b else mk('kb', bytes(b))


TRUE = mk('true')
FALSE = mk('false')
EMPTY = mk('cat')
UNIT = mk('agg', 'tup', 0, ())


def sym(*key):
    return mk('sym', *key)


def is_k(t):
    return t.op in ('k', 'kf', 'kb', 'kc') or t is EMPTY or (t.op == 'agg' and all(is_k(f) for f in t.args[2]))


def kval(t):
    if t.op == 'k':
        return t.args[0]
    if t.op == 'kf':
        return float(t.args[0])
    if t.op == 'kb':
        return t.args[0]
    if t is EMPTY:
        return b''
    return None


# ---------------------------------------------------------------- families
def family(a):
    if a.op == 'lt0':
        return ('P', a.args[1])
    if a.op == 'flt':
        x, y = a.args
        return ('F', min(x.id, y.id), max(x.id, y.id))
    if a.op == 'is':
        return ('is', a.args[0].id)
    if a.op == 'eqk':
        return ('eq', a.args[0].id)
    return None


def implied(a, val, b):
    """value of atom b given atom a == val (same family), or None."""
    if a is b:
        return val
    if a.op == 'lt0':
        c, c2 = a.args[0], b.args[0]
        # a: P < -c ; b: P < -c2
        if val:
            if c2 <= c:
                return True
        else:
            if c2 >= c:
                return False
        return None
    if a.op == 'flt' or a.op == 'is' or a.op == 'eqk':
        return False if val else None
    return None


_assume = {}


def assume(t, a, val):
    """t under atom a == val (top skeleton, theory-aware)."""
    if t.op != 'ite':
        return t
    f = family(a)
    return _assume_f(t, a, val, f)


def _assume_f(t, a, val, f):
    if t.op != 'ite':
        return t
    if f is None:
        if t.args[0].id > a.id:
            return t
    elif f not in t.fam:
        return t
    key = (t, a, val)
    r = _assume.get(key)
    if r is not None:
        return r
    b, hi, lo = t.args
    iv = implied(a, val, b) if (b is a or (f is not None and family(b) == f)) else None
    if iv is True:
        r = _assume_f(hi, a, val, f)
    elif iv is False:
        r = _assume_f(lo, a, val, f)
    else:
        r = node(b, _assume_f(hi, a, val, f), _assume_f(lo, a, val, f))
    _assume[key] = r
    return r


SEQ = ('cat', 'one', 'bc', 'kb', 'rep')


def parts(t):
    if t.op == 'cat':
        return t.args
    return (t,)


def node(a, hi, lo):
    if hi is lo:
        return hi
    if hi.op == 'ite' or lo.op == 'ite':
        f = family(a)
        if f is not None:
            if assume(lo, a, True) is hi:
                return lo
            if assume(hi, a, False) is lo:
                return hi
    elif hi.op == 'agg' and lo.op == 'agg' and hi.args[:2] == lo.args[:2] and len(hi.args[2]) == len(lo.args[2]) and hi.args[0] != 'clos':
        return mk('agg', hi.args[0], hi.args[1], tuple(ite(_ab(a), x, y) for x, y in zip(hi.args[2], lo.args[2])))
    if a.op == 'lt0' and a.args[0] == -1 and len(a.args[1]) == 1:
        # something without elements is empty
        (t, c), = a.args[1]
        if c == 1 and t.op in ('len', 'cnt') and t.args[0] is hi and hi.op in ('mb', 'fix', 'bc', 'cat', 'mset', 'msetall', 'sym'):
            e = EMPTY if t.op == 'len' else mk('mempty')
            if lo is e:
                return e
    if hi.op in SEQ or lo.op in SEQ:
        p, q = parts(hi), parts(lo)
        n = 0
        while n < len(p) and n < len(q) and p[n] is q[n]:
            n += 1
        m = 0
        while m < len(p) - n and m < len(q) - n and p[-1 - m] is q[-1 - m]:
            m += 1
        if n or m:
            mid = node(a, cat(*p[n:len(p) - m]), cat(*q[n:len(q) - m]))
            return cat(*p[:n], mid, *p[len(p) - m:])
    if a.op == 'lt0' and hi.op not in NOTINT and lo.op not in NOTINT:
        d = lin_add(to_lin(hi), to_lin(lo), -1)
        L = (a.args[0], dict(a.args[1]))
        # a: L<0 ? hi : lo
        for s, op in ((-1, 'imax'), (1, 'imin')):
            e = lin_add(d, L, -s)  # hi-lo - s*L
            if not e[1] and e[0] in (0, s):
                return (imax if op == 'imax' else imin)(hi, lo)
    if a.op == 'isutf8' and lo.op == 'lossy' and lo.args[0] is hi and hi is a.args[0]:
        return lo
    if a.op == 'flt':
        x, y = a.args
        if hi is y and lo is x:
            return fmax(x, y)
        if hi is x and lo is y:
            return fmin(x, y)
    return mk('ite', a, hi, lo)


_abm = {}


def _ab(a):
    r = _abm.get(a)
    if r is None:
        r = mk('ite', a, TRUE, FALSE)
        _abm[a] = r
    return r


def atom(t):
    """a boolean diagram for the opaque boolean term t."""
    if t is TRUE or t is FALSE or t.op == 'ite':
        return t
    return _ab(t)


_ite = {}


def ite(c, hi, lo):
    if c is TRUE:
        return hi
    if c is FALSE:
        return lo
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return c
    if c.op != 'ite':
        c = atom(c)
    key = (c, hi, lo)
    r = _ite.get(key)
    if r is not None:
        return r
    a = c.args[0]
    if hi.op == 'ite' and hi.args[0].id < a.id:
        a = hi.args[0]
    if lo.op == 'ite' and lo.args[0].id < a.id:
        a = lo.args[0]
    r = node(a, ite(assume(c, a, True), assume(hi, a, True), assume(lo, a, True)),
             ite(assume(c, a, False), assume(hi, a, False), assume(lo, a, False)))
    _ite[key] = r
    return r


def NOT(a):
    return ite(a, FALSE, TRUE)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def IFF(a, b):
    return ite(a, b, NOT(b))


def implies(a, b):
    return OR(NOT(a), b) is TRUE


_restr = {}


def restrict(t, c):
    """simplify t, to be used only where c holds."""
    if t.op == 'agg' and c.op == 'ite' and t.args[2]:
        return mk('agg', t.args[0], t.args[1], tuple(restrict(x, c) if isinstance(x, T) else x for x in t.args[2]))
    if t.op == 'one' and c.op == 'ite' and t.args[0].op in ('ite', 'agg'):
        return one(restrict(t.args[0], c))
    if t.op == 'cat' and c.op == 'ite' and any(p.op in ('ite', 'one') for p in t.args):
        return cat(*[restrict(p, c) for p in t.args])
    if t.op != 'ite' or c.op != 'ite':
        return t
    key = (t, c)
    r = _restr.get(key)
    if r is not None:
        return r
    ta, ca = t.args[0], c.args[0]
    if ca.id < ta.id and ca is not ta:
        c1, c0 = c.args[1], c.args[2]
        f = family(ca)
        if f is not None and f in t.fam:
            if c0 is FALSE:
                r = restrict(assume(t, ca, True), c1)
            elif c1 is FALSE:
                r = restrict(assume(t, ca, False), c0)
            else:
                r = node2(ca, restrict(assume(t, ca, True), c1), restrict(assume(t, ca, False), c0), t)
        elif c0 is FALSE:
            r = restrict(t, c1)
        elif c1 is FALSE:
            r = restrict(t, c0)
        else:
            r = restrict(t, OR(c1, c0))
    else:
        c1, c0 = assume(c, ta, True), assume(c, ta, False)
        t1, t0 = assume(t, ta, True), assume(t, ta, False)
        if c1 is FALSE:
            r = restrict(t0, c0)
        elif c0 is FALSE:
            r = restrict(t1, c1)
        else:
            r = node(ta, restrict(t1, c1), restrict(t0, c0))
    _restr[key] = r
    return r


def node2(a, hi, lo, orig):
    if hi is lo:
        return hi
    if hi is orig or lo is orig:
        return orig
    return ite(_ab(a), hi, lo)


def leaves(t, pc=TRUE):
    """[(guard, leaf)] of a diagram."""
    out = {}

    def go(x, g):
        if g is FALSE:
            return
        if x.op == 'ite':
            a = _ab(x.args[0])
            go(x.args[1], AND(g, a))
            go(x.args[2], AND(g, NOT(a)))
        else:
            out[x] = OR(out[x], g) if x in out else g
    go(t, pc)
    return [(g, l) for l, g in out.items()]


_lift = {}


def lift(name, f, *xs, limit=256):
    """apply f to the leaves of the diagrams xs."""
    if not any(x.op == 'ite' for x in xs):
        return f(*xs)
    key = (name, xs)
    r = _lift.get(key)
    if r is not None:
        return r
    a = min((x.args[0] for x in xs if x.op == 'ite'), key=lambda t: t.id)
    r = ite(_ab(a), lift(name, f, *[assume(x, a, True) for x in xs]), lift(name, f, *[assume(x, a, False) for x in xs]))
    _lift[key] = r
    return r


# ---------------------------------------------------------------- integers
NONNEG_OPS = {'len', 'imax0', 'idx', 'sumi', 'first', 'count', 'cnt', 'i_u'}


def to_lin(t):
    if t.op == 'k':
        return (t.args[0], {})
    if t.op == 'lin':
        return (t.args[0], dict(t.args[1]))
    return (0, {t: 1})


def from_lin(l):
    c, d = l
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return mk('k', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def lin_add(a, b, s=1):
    d = dict(a[1])
    for t, k in b[1].items():
        d[t] = d.get(t, 0) + s * k
        if d[t] == 0:
            del d[t]
    return (a[0] + s * b[0], d)


def _add(a, b):
    return from_lin(lin_add(to_lin(a), to_lin(b)))


def _subl(a, b):
    return from_lin(lin_add(to_lin(a), to_lin(b), -1))


def add(a, b):
    return lift('add', _add, a, b)


def sub(a, b):
    return lift('sub', _subl, a, b)


def _mul(a, b):
    if b.op == 'k':
        a, b = b, a
    if a.op == 'k':
        c, d = to_lin(b)
        return from_lin((c * a.args[0], {t: k * a.args[0] for t, k in d.items()}))
    return mk('mul', *sorted((a, b), key=lambda t: t.id))


def mul(a, b):
    return lift('mul', _mul, a, b)


def idiv(a, b):
    def f(a, b):
        if a.op == 'k' and b.op == 'k' and b.args[0]:
            return mk('k', a.args[0] // b.args[0])
        if b.op == 'k' and b.args[0] == 1:
            return a
        return mk('div', a, b)
    return lift('div', f, a, b)


def irem(a, b):
    def f(a, b):
        if a.op == 'k' and b.op == 'k' and b.args[0]:
            return mk('k', a.args[0] % b.args[0])
        return mk('rem', a, b)
    return lift('rem', f, a, b)


_nonneg = set()


def declare_nonneg(t):
    if t.op not in ('ite', 'lin'):
        _nonneg.add(t)
    return t


def nonneg(t):
    if t in _nonneg or t.op in ('len', 'idx', 'sumi', 'first', 'div', 'rem', 'cnt'):
        return True
    if t.op == 'k':
        return t.args[0] >= 0
    if t.op == 'bv':
        return True
    if t.op == 'imax':
        return any(nonneg(x) for x in t.args)
    if t.op in ('imin', 'mul'):
        return all(nonneg(x) for x in t.args)
    if t.op == 'lin':
        return t.args[0] >= 0 and all(k > 0 and nonneg(x) for x, k in t.args[1])
    return False


def _lt0(l):
    """diagram for L < 0"""
    c, d = l
    if not d:
        return TRUE if c < 0 else FALSE
    items = sorted(d.items(), key=lambda x: x[0].id)
    if items[0][1] < 0:
        # L<0  <=>  not(-L <= 0) <=> not(-L-1 < 0)
        return NOT(_lt0((-c - 1, {t: -k for t, k in d.items()})))
    if len(items) == 1:
        k = items[0][1]
        if k > 1:
            # k*t + c < 0 <=> t < -c/k <=> t + floor(...)  : t <= ceil(-c/k)-1
            import math
            m = -((c) // k)  # ceil(-c/k)
            return _lt0((-m, {items[0][0]: 1}))
        if nonneg(items[0][0]) and c >= 0:
            return FALSE
    if all(k > 0 and nonneg(t) for t, k in items) and c >= 0:
        return FALSE
    if all(k < 0 and nonneg(t) for t, k in items) and c < 0:
        return TRUE
    return _ab(mk('lt0', c, tuple(items)))


def lt(a, b):
    def f(a, b):
        # slack from min/max
        return _lt0(lin_add(to_lin(a), to_lin(b), -1))
    return lift('lt', f, a, b)


def le(a, b):
    return NOT(lt(b, a))


def ieq(a, b):
    return AND(le(a, b), le(b, a))


def imax(a, b):
    def f(a, b):
        d = lin_add(to_lin(a), to_lin(b), -1)
        if not d[1]:
            return a if d[0] >= 0 else b
        for hi, e, s in ((a, d, 1), (b, d, -1)):
            if e[0] * s >= 0 and all(k * s > 0 and nonneg(t) for t, k in e[1].items()):
                return hi
        xs = set()
        for x in (a, b):
            xs |= set(x.args) if x.op == 'imax' else {x}
        for x in xs:
            if x.op == 'inf':
                return x
        ks = [x for x in xs if x.op == 'k']
        if len(ks) > 1:
            m = max(ks, key=lambda x: x.args[0])
            xs -= set(ks)
            xs.add(m)
        for x in list(xs):
            if x.op == 'k' and x.args[0] <= 0 and any(nonneg(y) and y is not x for y in xs):
                xs.discard(x)
        if len(xs) == 1:
            return xs.pop()
        return mk('imax', *sorted(xs, key=lambda t: t.id))
    return lift('imax', f, a, b)


def imin(a, b):
    def f(a, b):
        d = lin_add(to_lin(a), to_lin(b), -1)
        if not d[1]:
            return a if d[0] <= 0 else b
        for lo, s in ((b, 1), (a, -1)):
            if d[0] * s >= 0 and all(k * s > 0 and nonneg(t) for t, k in d[1].items()):
                return lo
        xs = set()
        for x in (a, b):
            xs |= set(x.args) if x.op == 'imin' else {x}
        if len(xs) > 1:
            xs = {x for x in xs if x.op != 'inf'}
        if len(xs) == 1:
            return xs.pop()
        return mk('imin', *sorted(xs, key=lambda t: t.id))
    return lift('imin', f, a, b)


# ---------------------------------------------------------------- floats
# 'fl' (const Fraction as (n,d), ((prod, (n,d)),...)); prod: 'fp' ((base,power),...)
FLOAT_OPS = {'kf', 'fl', 'fp'}


def _fr(x):
    return (x.numerator, x.denominator)


def to_fl(t):
    if t.op == 'kf':
        v = float(t.args[0])
        if v != v or v in (float('inf'), float('-inf')):
            return (Fraction(0), {t: Fraction(1)})
        return (Fraction(v), {})
    if t.op == 'fl':
        return (Fraction(*t.args[0]), {p: Fraction(*k) for p, k in t.args[1]})
    return (Fraction(0), {t: Fraction(1)})


def from_fl(l):
    c, d = l
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        try:
            return KF(float(c))
        except OverflowError:
            return mk('fl', _fr(c), ())
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('fl', _fr(c), tuple(sorted(((t, _fr(k)) for t, k in d.items()), key=lambda x: x[0].id)))


def _fadd(a, b, s=1):
    x, y = to_fl(a), to_fl(b)
    d = dict(x[1])
    for t, k in y[1].items():
        d[t] = d.get(t, 0) + s * k
    return from_fl((x[0] + s * y[0], d))


def fadd(a, b):
    return lift('fadd', _fadd, a, b)


def fsub(a, b):
    return lift('fsub', lambda a, b: _fadd(a, b, -1), a, b)


def _prod(t):
    if t.op == 'fp':
        return dict(t.args[0])
    return {t: 1}


def _mkprod(d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return None
    if len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('fp', tuple(sorted(d.items(), key=lambda x: x[0].id)))


def _fmul(a, b):
    x, y = to_fl(a), to_fl(b)
    xs = list(x[1].items()) + ([(None, x[0])] if x[0] else [])
    ys = list(y[1].items()) + ([(None, y[0])] if y[0] else [])
    if len(xs) * len(ys) > 200:
        return mk('fmulx', *sorted((a, b), key=lambda t: t.id))
    c = Fraction(0)
    d = {}
    for p, k in xs:
        for q, m in ys:
            e = _prod(p) if p else {}
            e = dict(e)
            for t, n in (_prod(q) if q else {}).items():
                e[t] = e.get(t, 0) + n
            r = _mkprod(e)
            if r is None:
                c += k * m
            else:
                d[r] = d.get(r, 0) + k * m
    return from_fl((c, d))


def fmul(a, b):
    return lift('fmul', _fmul, a, b)


def finv(t):
    def f(t):
        c, d = to_fl(t)
        if not d and c:
            return from_fl((1 / c, {}))
        if c == 0 and len(d) == 1:
            (p, k), = d.items()
            q = _mkprod({b: -n for b, n in _prod(p).items()})
            return from_fl((Fraction(0), {q: 1 / k}))
        return mk('fp', ((t, -1),))
    return lift('finv', f, t)


def fdiv(a, b):
    return fmul(a, finv(b))


def fneg(a):
    return fsub(KF(0.0), a)


def flt(a, b):
    def f(a, b):
        if a is b:
            return FALSE
        if a.op == 'kf' and b.op == 'kf':
            return TRUE if float(a.args[0]) < float(b.args[0]) else FALSE
        if b.op == 'kf' and float(b.args[0]) == float('-inf'):
            return FALSE
        if a.op == 'kf' and float(a.args[0]) == float('inf'):
            return FALSE
        return _ab(mk('flt', a, b))
    return lift('flt', f, a, b)


def fle(a, b):
    return NOT(flt(b, a))


def feq(a, b):
    return AND(NOT(flt(a, b)), NOT(flt(b, a)))


def fmax(a, b):
    def f(a, b):
        if a is b:
            return a
        if a.op == 'kf' and b.op == 'kf':
            return a if float(a.args[0]) > float(b.args[0]) else b
        return mk('fmax', *sorted((a, b), key=lambda t: t.id))
    return lift('fmax', f, a, b)


def fmin(a, b):
    def f(a, b):
        if a is b:
            return a
        if a.op == 'kf' and b.op == 'kf':
            return a if float(a.args[0]) < float(b.args[0]) else b
        return mk('fmin', *sorted((a, b), key=lambda t: t.id))
    return lift('fmin', f, a, b)


def i2f(t):
    def f(t):
        if t.op == 'k':
            return KF(float(t.args[0]))
        if t.op == 'lin':
            r = KF(float(t.args[0]))
            for x, k in t.args[1]:
                r = _fadd(r, _fmul(KF(float(k)), f(x)))
            return r
        if t.op == 'mul':
            r = KF(1.0)
            for x in t.args:
                r = _fmul(r, f(x))
            return r
        return mk('i2f', t)
    return lift('i2f', f, t)


NOTINT = {'true', 'false', 'agg', 'cat', 'one', 'bc', 'kb', 'rep', 'kf', 'fl', 'fp', 'ite', 'it', 'ref', 'clos', 'mset', 'vset', 'i2f'}
INT_OPS = {'k', 'lin', 'len', 'imax', 'imin', 'mul', 'div', 'rem', 'sumi'}

# ---------------------------------------------------------------- aggregates


def agg(adt, v, fields):
    return mk('agg', adt, v, tuple(fields))


def tup(*xs):
    return mk('agg', 'tup', 0, tuple(xs))


def _fld(t, v, i):
    if t.op == 'agg' and t.args[0] != 'clos':
        if t.args[1] == v and i < len(t.args[2]):
            return t.args[2][i]
        return mk('bot')
    if t.op == 'lossy':  # a Cow: the text, borrowed or owned
        return t
    return mk('fld', t, v, i)


def fld(t, v, i):
    return lift(('fld', v, i), lambda x: _fld(x, v, i), t)


def isvar(t, v, n):
    """diagram: enum value t is variant v of n."""
    def f(x):
        if x.op == 'agg':
            return TRUE if x.args[1] == v else FALSE
        if x.op == 'bot':
            return FALSE
        if n == 1:
            return TRUE
        if x.op == 'lossy' and n == 2:
            a = _ab(mk('isutf8', x.args[0]))
            return a if v == 0 else NOT(a)
        if n == 2:
            a = _ab(mk('is', x, 0))
            return a if v == 0 else NOT(a)
        if v < n - 1:
            return _ab(mk('is', x, v))
        return AND(*[NOT(_ab(mk('is', x, i))) for i in range(n - 1)])
    return lift(('isvar', v, n), f, t)


OPT = 'core::option::Option'
RES = 'core::result::Result'
ORD = 'core::cmp::Ordering'


def some(x):
    return agg(OPT, 1, (x,))


NONE = agg(OPT, 0, ())


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def is_some(t):
    return isvar(t, 1, 2)


def is_ok(t):
    return isvar(t, 0, 2)


LESS, EQUAL, GREATER = agg(ORD, 0, ()), agg(ORD, 1, ()), agg(ORD, 2, ())


def cmp_int(a, b):
    return ite(lt(a, b), LESS, ite(lt(b, a), GREATER, EQUAL))


def cmp_flt(a, b):
    return ite(flt(a, b), LESS, ite(flt(b, a), GREATER, EQUAL))


def ord_rev(t):
    def f(x):
        if x is LESS:
            return GREATER
        if x is GREATER:
            return LESS
        if x is EQUAL:
            return EQUAL
        return mk('ordrev', x)
    return lift('ordrev', f, t)


# ---------------------------------------------------------------- equality
def eq(a, b, kind=None):
    """semantic equality of values as a diagram. kind: 'int','float' or None."""
    if a is b:
        return TRUE

    def f(a, b):
        if a is b:
            return TRUE
        if a.op == 'agg' and b.op == 'agg' and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]):
                return FALSE
            return AND(*[eq(x, y) for x, y in zip(a.args[2], b.args[2])])
        if a.op == 'bot' or b.op == 'bot':
            return FALSE
        if is_k(a) and is_k(b) and a.op == b.op:
            return FALSE
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            return IFF(atom(a), atom(b))
        if a.op in ('k', 'lin') or b.op in ('k', 'lin') or a in _nonneg or b in _nonneg or a.op == 'len' or b.op == 'len':
            return AND(NOT(_lt0(lin_add(to_lin(a), to_lin(b), -1))), NOT(_lt0(lin_add(to_lin(b), to_lin(a), -1))))
        if a.op in FLOAT_OPS or b.op in FLOAT_OPS:
            return feq(a, b)
        if b.op == 'agg' and a.op != 'agg':
            a, b = b, a
        if a.op == 'agg' and b.op == 'nfquick':
            return isvar(b, a.args[1], 3)
        if a.op == 'agg' and a.args[0] in (OPT, RES):
            return AND(isvar(b, a.args[1], 2), *[eq(x, fld(b, a.args[1], i)) for i, x in enumerate(a.args[2])])
        if a.op == 'agg' and a.args[0] == 'tup':
            return AND(*[eq(x, fld(b, 0, i)) for i, x in enumerate(a.args[2])])
        if a.op == 'one' and b.op == 'one':
            return eq(a.args[0], b.args[0])
        if is_k(a):
            return _ab(mk('eqk', b, a)) if _ek(b, a) is None else _ek(b, a)
        if is_k(b):
            return _ab(mk('eqk', a, b)) if _ek(a, b) is None else _ek(a, b)
        x, y = sorted((a, b), key=lambda t: t.id)
        return _ab(mk('eq', x, y))
    return lift('eq', f, a, b)


def _ek(a, k):
    if k is EMPTY:
        return lt(seqlen(a), mk('k', 1))
    return None


# ---------------------------------------------------------------- sequences
def one(x):
    return mk('one', x)


def cat(*xs):
    out = []
    for x in xs:
        if x is EMPTY:
            continue
        for p in (x.args if x.op == 'cat' else (x,)):
            if p.op == 'kb' and out and out[-1].op == 'kb':
                out[-1] = mk('kb', out[-1].args[0] + p.args[0])
            elif p.op == 'rep' and out and out[-1].op == 'rep' and out[-1].args[0] is p.args[0]:
                out[-1] = mk('rep', p.args[0], add(out[-1].args[1], p.args[1]))
            else:
                out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def _len(t):
    if t.op == 'cat':
        r = mk('k', 0)
        for p in t.args:
            r = add(r, seqlen(p))
        return r
    if t.op == 'one':
        return mk('k', 1)
    if t.op == 'kb':
        return mk('k', len(t.args[0]))
    if t.op == 'rep':
        return t.args[1]
    if t.op in ('vset', 'rev', 'sorted', 'shuffled', 'marg', 'partsorted'):
        return seqlen(t.args[0])
    if t.op == 'fix':
        # a loop that keeps the length of its accumulator
        xs = t.args[2]
        ph = [sym('fixl', t.id, i) for i in range(len(xs) - 1)]
        j = sym('fixl', t.id, 'j')
        declare_nonneg(j)
        b = open_(t, *ph, j)
        if b.op == 'agg' and len(b.args[2]) == len(ph) and b.args[2][0].op in ('cat', 'vset', 'marg', 'bc', 'fix', 'ite') and seqlen(b.args[2][0]) is seqlen(ph[0]):
            return seqlen(xs[1])
        return mk('len', t)
    if t.op == 'slice':
        return sub(t.args[2], t.args[1])
    if t.op == 'bc':
        (n,), body = t.args[2], t.args[1]
        j = sym('lenj', t.id)
        declare_nonneg(j)
        b = open_(t, j)
        return bsum(n, j, seqlen(b))
    return mk('len', t)


def seqlen(t):
    return lift('len', _len, t)


def slice_(v, a, b):
    """v[a..b]; b None = to the end"""
    def f(v, a, b):
        if v.op == 'slice':
            return f(v.args[0], add(v.args[1], a), add(v.args[1], b))
        if a is mk('k', 0) and b is seqlen(v):
            return v
        if a is b:
            return EMPTY
        if v.op == 'kb' and a.op == 'k' and b.op == 'k':
            return KB(v.args[0][a.args[0]:b.args[0]])
        if v.op == 'rep':
            return mk('rep', v.args[0], sub(b, a))
        return mk('slice', v, a, b)
    if b is None:
        b = seqlen(v)
    return lift('slice', f, v, a, b)


def at(v, i):
    def f(v, i):
        if v.op == 'vset':
            w, k, x = v.args
            e = eq(i, k)
            return ite(e, x, at(w, i))
        if v.op == 'rep':
            return v.args[0]
        if v.op == 'kb' and i.op == 'k' and 0 <= i.args[0] < len(v.args[0]):
            return mk('k', v.args[0][i.args[0]])
        if v.op == 'one' and i.op == 'k' and i.args[0] == 0:
            return v.args[0]
        if v.op == 'slice':
            return at(v.args[0], add(v.args[1], i))
        if v.op == 'rev':
            return at(v.args[0], sub(sub(seqlen(v.args[0]), mk('k', 1)), i))
        if v.op == 'bc' and v.args[1].op == 'one':
            return open_(v, i).args[0]
        if v.op == 'cat':
            off = mk('k', 0)
            for p in v.args:
                n = seqlen(p)
                end = add(off, n)
                c = lt(i, end)
                # an index is only ever read within bounds
                if c is TRUE or p is v.args[-1]:
                    if lt(i, off) is FALSE:
                        return at(p, sub(i, off))
                    break
                if c is not FALSE:
                    break
                off = end
        return mk('at', v, i)
    return lift('at', f, v, i)


def vset(v, i, x):
    def f(v, i):
        if v.op == 'vset' and v.args[1] is i:
            return mk('vset', v.args[0], i, x)
        if v.op == 'one' and i is mk('k', 0):
            return one(x)
        if v.op == 'cat' and i.op == 'k' and all(p.op == 'one' for p in v.args) and i.args[0] < len(v.args):
            return cat(*[one(x) if k == i.args[0] else p for k, p in enumerate(v.args)])
        if x.op == 'at' and x.args[0] is v and x.args[1] is i:
            return v
        if at(v, i) is x:
            return v
        return mk('vset', v, i, x)
    return lift(('vset', x), f, v, i)


def rev(t):
    def f(t):
        if t.op == 'cat':
            return cat(*[rev(p) for p in reversed(t.args)])
        if t.op in ('one', 'rep') or t is EMPTY:
            return t
        if t.op == 'rev':
            return t.args[0]
        if t.op == 'kb':
            return KB(t.args[0][::-1])
        if t.op == 'bc':
            (n,) = t.args[2]
            j = sym('revj', t.id)
            declare_nonneg(j)
            return bigcat(n, j, rev(open_(t, sub(sub(n, mk('k', 1)), j))))
        return mk('rev', t)
    return lift('rev', f, t)


# ---------------------------------------------------------------- binders
# ('bc'|'ex'|'first'|'sumi'|'sumf'|'fold'|'lam'..., h, body, others)   bound: bv(h,i)
BIND = {'bc', 'ex', 'first', 'sumi', 'sumf', 'fold', 'lam', 'lam2', 'gen', 'prodf', 'setc', 'fix', 'mb'}


def bind(op, syms, body, others=()):
    hh = 0

    def mh(t):
        return t.h
    h = 1 + body.h
    m = {s: mk('bv', h, i) for i, s in enumerate(syms)}
    b = subst(body, m)
    return _mkbind(op, h, b, tuple(others))


def _mkbind(op, h, b, others):
    key = (op, (h, b, others))
    new = (op, (h, b, others)) not in _tab
    t = mk(op, h, b, others)
    if new:
        if t.h < h:
            t.h = h
        fv = frozenset(x for x in b.fv if not (x.op == 'bv' and x.args[0] == h))
        for o in others:
            fv |= o.fv
        t.fv = fv
    return t


# args: (h, body, others)
def _body(t):
    return t.args[1]


def open_(t, *vals):
    h, b, _ = t.args
    return subst(b, {mk('bv', h, i): v for i, v in enumerate(vals)})


def bigcat(n, j, piece):
    """concatenation over j in 0..n of piece(j)"""
    if piece is EMPTY or n is mk('k', 0):
        return EMPTY
    if n is mk('k', 1):
        return subst(piece, {j: mk('k', 0)})
    if piece.op == 'one':
        x = piece.args[0]
        if x.op == 'at' and x.args[1] is j and j not in x.args[0].fv:
            v = x.args[0]
            if seqlen(v) is n:
                return v
            if le(n, seqlen(v)) is TRUE:
                return slice_(v, mk('k', 0), n)
        # v[a+j]
        if x.op == 'at' and j not in x.args[0].fv:
            off = sub(x.args[1], j)
            if j not in off.fv:
                v = x.args[0]
                if seqlen(v).op != 'len' or True:
                    if add(off, n) is seqlen(v):
                        return slice_(v, off, None)
                    return slice_(v, off, add(off, n)) if v.op != 'kb' else bind('bc', (j,), piece, (n,))
        if j not in x.fv:
            return mk('rep', x, n)
        # v[a-j]
        if x.op == 'at' and j not in x.args[0].fv:
            top = add(x.args[1], j)
            if j not in top.fv:
                v, k1 = x.args[0], mk('k', 1)
                if add(top, k1) is seqlen(v) and n is seqlen(v):
                    return rev(v)
                if nonneg(sub(add(top, k1), n)):
                    return rev(slice_(v, sub(add(top, k1), n), add(top, k1)))
    if piece.op == 'strpiece' and piece.args[0].op == 'at' and piece.args[0].args[1] is j:
        v = piece.args[0].args[0]
        if v.op == 'chars' and j not in v.fv and seqlen(v) is n:
            return v.args[0]
    if n.op == 'ite' or False:
        return lift(('bigcat', j, piece), lambda m: bigcat(m, j, piece), n)
    return bind('bc', (j,), piece, (n,))


def bexists(n, j, p):
    p = atom(p)
    if p is FALSE or n is mk('k', 0):
        return FALSE
    if j not in p.fv:
        return AND(p, lt(mk('k', 0), n))
    if n.op == 'ite':
        return lift(('bex', j, p), lambda m: bexists(m, j, p), n)
    h = halfline(p, j)
    if h is not None:
        return lt(imax(h[1], mk('k', 0)), n) if h[0] == 'from' else lt(mk('k', 0), imin(n, h[1]))
    for x in atoms(p):
        if j not in x.fv:        # p is a choice made once
            g = _ab(x)
            return ite(g, bexists(n, j, assume(p, x, True)), bexists(n, j, assume(p, x, False)))
    return _ab(bind('ex', (j,), p, (n,)))


def halfline(p, j):
    """('from', L) if p says L <= j, ('below', L) if it says j < L, None otherwise; L free of j"""
    if p.op != 'ite' or p.args[0].op != 'lt0' or p.args[1] not in (TRUE, FALSE) or p.args[2] not in (TRUE, FALSE):
        return None
    c, items = p.args[0].args
    d = dict(items)
    k = d.pop(j, None)
    if k not in (1, -1) or any(j in t.fv for t in d):
        return None
    if k == -1:      # c + d - j < 0: c + d < j
        L = from_lin((c + 1, d))
        return ('from' if p.args[1] is TRUE else 'below', L)
    L = from_lin((-c, {t: -v for t, v in d.items()}))      # c + d + j < 0: j < -c - d
    return ('below' if p.args[1] is TRUE else 'from', L)


def bfirst(n, j, p):
    """the first index at which p holds, n if it holds nowhere below n"""
    p = atom(p)
    if p is FALSE:
        return n
    for x in atoms(p):
        if j not in x.fv:        # p is a choice made once
            g = _ab(x)
            return ite(g, bfirst(n, j, assume(p, x, True)), bfirst(n, j, assume(p, x, False)))
    h = halfline(p, j)
    if h is not None and h[0] == 'from':
        return imin(n, imax(h[1], mk('k', 0)))
    return bind('first', (j,), p, (n,))


def bsum(n, j, e):
    if j not in e.fv:
        return mul(n, e)
    if e.op == 'lin':
        r = mul(n, mk('k', e.args[0]))
        for t, k in e.args[1]:
            r = add(r, mul(mk('k', k), bsum(n, j, t)))
        return r
    return bind('sumi', (j,), e, (n,))


def bsumf(n, j, e):
    if j not in e.fv:
        return fmul(i2f(n), e)
    return bind('sumf', (j,), e, (n,))


def lam(x, body):
    return bind('lam', (x,), body)


# ---------------------------------------------------------------- maps
MEMPTY = mk('mempty')


def mset(m, k, v):
    def f(m):
        if m.op == 'mset' and eq(m.args[1], k) is TRUE:
            return mk('mset', m.args[0], k, v)
        return mk('mset', m, k, v)
    return lift(('mset', k, v), f, m)


def mdel(m, k):
    return lift(('mdel', k), lambda m: mk('mdel', m, k), m)


def has(m, k):
    def f(m, k):
        if m is MEMPTY:
            return FALSE
        if m.op == 'mset':
            return OR(eq(m.args[1], k), has(m.args[0], k))
        if m.op == 'mdel':
            return AND(NOT(eq(m.args[1], k)), has(m.args[0], k))
        if m.op == 'mb':
            n, init = m.args[2]
            j = sym('hasj', m.id)
            declare_nonneg(j)
            b = open_(m, j)
            return OR(has(init, k), bexists(n, j, AND(fld(b, 0, 0), eq(fld(b, 0, 1), k))))
        return _ab(mk('has', m, k))
    return lift('has', f, m, k)


def mget(m, k):
    def f(m, k):
        if m.op == 'mset':
            return ite(eq(m.args[1], k), m.args[2], mget(m.args[0], k))
        if m is MEMPTY:
            return mk('bot')
        return mk('mget', m, k)
    return lift('mget', f, m, k)


def msize(m):
    def f(m):
        if m is MEMPTY:
            return mk('k', 0)
        return declare_nonneg(mk('cnt', m))
    return lift('msize', f, m)


# ---------------------------------------------------------------- substitution
def rebuild(op, args):
    """rebuild a term from (substituted) args with the smart constructors."""
    if op == 'ite':
        return ite(atom(args[0]), args[1], args[2])
    if op == 'lin':
        r = mk('k', args[0])
        for t, k in args[1]:
            r = add(r, mul(mk('k', k), t))
        return r
    if op == 'lt0':
        r = mk('k', args[0])
        for t, k in args[1]:
            r = add(r, mul(mk('k', k), t))
        return lt(r, mk('k', 0))
    if op == 'fl':
        r = from_fl((Fraction(*args[0]), {}))
        for t, k in args[1]:
            r = fadd(r, fmul(from_fl((Fraction(*k), {})), t))
        return r
    if op == 'fp':
        r = KF(1.0)
        for t, n in args[0]:
            for _ in range(abs(n)):
                r = fmul(r, t if n > 0 else finv(t))
        return r
    f = REB.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


REB = {
    'mul': lambda *a: _r(mul, a), 'div': idiv, 'rem': irem, 'imax': lambda *a: _r(imax, a), 'imin': lambda *a: _r(imin, a),
    'flt': flt, 'fmax': fmax, 'fmin': fmin, 'i2f': i2f,
    'fld': fld, 'eqk': eq, 'eq': eq, 'cat': cat, 'len': seqlen, 'slice': slice_, 'at': at, 'vset': vset, 'rev': rev,
    'mset': mset, 'has': has, 'mget': mget, 'mdel': mdel, 'cnt': msize, 'ordrev': ord_rev,
}


def _r(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


# 'is' needs the number of variants: n==2 uses index 0 only
def _reb_is(x, v):
    def f(y):
        if y.op == 'agg':
            return TRUE if y.args[1] == v else FALSE
        if y.op == 'bot':
            return FALSE
        return _ab(mk('is', y, v))
    return lift(('reb_is', v), f, x)


REB['is'] = _reb_is


def split_(v, sep):
    if v.op == 'kb' and sep.op == 'kb' and sep.args[0]:
        return cat(*[one(KB(x)) for x in v.args[0].split(sep.args[0])])
    return mk('split', v, sep)


def sfun(name, *a):
    """a function of one text; on a constant ASCII text it is computed"""
    v = a[0]
    if len(a) == 1 and v.op == 'kb' and v.args[0].isascii():
        f = {'trim': bytes.strip, 'trim_start': bytes.lstrip, 'trim_end': bytes.rstrip, 'to_lowercase': bytes.lower, 'to_uppercase': bytes.upper,
             'to_ascii_lowercase': bytes.lower}.get(name)
        if f:
            return KB(f(v.args[0]))
    return mk('s_' + name, *a)


REB['split'] = split_
for _n in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase'):
    REB['s_' + _n] = (lambda n: lambda *a: sfun(n, *a))(_n)

_subst = {}


def subst(t, m):
    if not m:
        return t
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    key0 = tuple(sorted(((k.id, v.id) for k, v in m.items())))
    keys = frozenset(m)
    memo = _subst.setdefault(key0, {})
    return _su(t, m, keys, memo)


def _su(t, m, keys, memo):
    if t in m:
        return m[t]
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BIND:
        h, b, others = t.args
        nb = t_nb(t)
        fs = [sym('open', t.id, i) for i in range(nb)]
        for s in fs:
            if t.op not in ('fold', 'lam', 'lam2') and (t.op != 'fix' or s is fs[-1]):
                declare_nonneg(s)
        body = _su(open_(t, *fs), m, keys, memo)
        oth = tuple(_su(o, m, keys, memo) for o in others)
        r = REBIND[t.op](oth, fs, body)
    else:
        r = rebuild(t.op, tuple(_sa(a, m, keys, memo) for a in t.args))
    if r.op != 'ite' and t in _nonneg:
        _nonneg.add(r) if r.op not in ('lin', 'k') else None
    memo[t] = r
    return r


def _sa(a, m, keys, memo):
    if isinstance(a, T):
        return _su(a, m, keys, memo)
    if isinstance(a, tuple):
        return tuple(_sa(x, m, keys, memo) for x in a)
    return a


def t_nb(t):
    if t.op == 'fix':
        return len(t.args[2])  # (n, inits...) -> phis..., j
    return {'fold': 2, 'lam2': 2, 'gen': 1}.get(t.op, 1)


nbound = t_nb


REBIND = {
    'bc': lambda o, f, b: bigcat(o[0], f[0], b),
    'ex': lambda o, f, b: bexists(o[0], f[0], b),
    'first': lambda o, f, b: bfirst(o[0], f[0], b),
    'sumi': lambda o, f, b: bsum(o[0], f[0], b),
    'sumf': lambda o, f, b: bsumf(o[0], f[0], b),
    'fold': lambda o, f, b: bind('fold', f, b, o),
    'lam': lambda o, f, b: bind('lam', f, b, o),
    'lam2': lambda o, f, b: bind('lam2', f, b, o),
    'gen': lambda o, f, b: bind('gen', f, b, o),
    'prodf': lambda o, f, b: bind('prodf', f, b, o),
    'setc': lambda o, f, b: bind('setc', f, b, o),
    'fix': lambda o, f, b: bind('fix', f, b, o),
    'mb': lambda o, f, b: o[1] if o[0] is mk('k', 0) else bind('mb', f, b, o),
}


# ---------------------------------------------------------------- queries
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_sub(x.args))


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def atoms(t):
    """atoms of the skeleton"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        if x.args[0] not in seen:
            seen.add(x.args[0])
            out.append(x.args[0])
        st += [x.args[1], x.args[2]]
    return out


def veq(a, b, pc=TRUE):
    """are a and b equal wherever pc holds? (decided on the normal forms)"""
    if a is b or pc is FALSE:
        return True
    a, b = restrict(a, pc), restrict(b, pc)
    if a is b:
        return True
    if a.op == 'ite' or b.op == 'ite':
        x = min((t.args[0] for t in (a, b) if t.op == 'ite'), key=lambda t: t.id)
        g = _ab(x)
        return veq(assume(a, x, True), assume(b, x, True), AND(pc, g)) and veq(assume(a, x, False), assume(b, x, False), AND(pc, NOT(g)))
    if a.op == 'agg' and b.op == 'agg' and a.args[:2] == b.args[:2] and len(a.args[2]) == len(b.args[2]):
        return all(veq(x, y, pc) for x, y in zip(a.args[2], b.args[2]))
    if a.op == 'cat' and b.op == 'cat' and len(a.args) == len(b.args):
        return all(veq(x, y, pc) for x, y in zip(a.args, b.args))
    if a.op == 'one' and b.op == 'one':
        return veq(a.args[0], b.args[0], pc)
    if a.op == 'vset' and b.op == 'vset':
        return all(veq(x, y, pc) for x, y in zip(a.args, b.args))
    if b.op == 'agg' and a.op != 'agg':
        a, b = b, a
    if a.op == 'agg' and b.op != 'agg' and a.args[0] != 'clos':
        # b must be known to be that variant
        v = a.args[1]
        if all(veq(x, fld(b, v, i), pc) for i, x in enumerate(a.args[2])):
            if a.args[0] == 'tup':
                return True
            if a.args[0] in (OPT, RES):
                return restrict(isvar(b, v, 2), pc) is TRUE
            return restrict(_reb_is(b, v), pc) is TRUE or v == 0 and bool(a.args[2])
        return False
    e = eq(a, b)
    return restrict(e, pc) is TRUE


# ---------------------------------------------------------------- printing
FIXNAMES = None
_lids = {}


def _short(t):
    if len(t.args) < 2:
        return '$' + str(t.args[0])
    n = _lids.setdefault(t.args[1], len(_lids))
    if t.args[0] == 'phi':
        return f"phi{n}.{show(t.args[2])}" + ''.join('.%d' % p[1] for p in t.args[3])
    return f'{t.args[0]}{n}'


def show(t, d=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d - 1) for x in t) + ')'
        return str(t)
    if d <= 0:
        return '…'
    s = lambda x: show(x, d - 1)
    o, a = t.op, t.args
    if o == 'k' or o == 'kf':
        return str(a[0])
    if o == 'kb':
        return repr(a[0])[1:]
    if o == 'true' or o == 'false':
        return o
    if o == 'sym' and a and a[0] in ('phi', 'j', 'jx', 'jc'):
        return _short(t)
    if o == 'root':
        return 'r' + str(a[-1]) if a[0] != 'P' else f'P{a[1]}'
    if o == 'fix' and FIXNAMES is not None:
        if t not in FIXNAMES:
            FIXNAMES[t] = 'FIX%d' % len(FIXNAMES)
        return FIXNAMES[t]
    if o == 'sym':
        return '$' + '.'.join(s(x) if isinstance(x, T) else str(x) for x in a)
    if o == 'bv':
        return f'%{a[0]}' + (f'.{a[1]}' if a[1] else '')
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + s(a[0])
        if a[2] is FALSE:
            return f'({s(a[0])} && {s(a[1])})'
        if a[1] is TRUE:
            return f'({s(a[0])} || {s(a[2])})'
        if a[1] is FALSE:
            return f'(!{s(a[0])} && {s(a[2])})'
        if a[2] is TRUE:
            return f'(!{s(a[0])} || {s(a[1])})'
        return f'[{s(a[0])} ? {s(a[1])} : {s(a[2])}]'
    if o == 'lin':
        r = ' + '.join((f'{k}*' if k != 1 else '') + s(x) for x, k in a[1])
        return f'({r}{" %+d" % a[0] if a[0] else ""})'
    if o == 'lt0':
        pos = [(x, k) for x, k in a[1] if k > 0]
        neg = [(x, -k) for x, k in a[1] if k < 0]
        f = lambda l, c: ' + '.join([(f'{k}*' if k != 1 else '') + s(x) for x, k in l] + ([str(c)] if c or not l else []))
        return f'{f(pos, a[0] if a[0] > 0 else 0)} < {f(neg, -a[0] if a[0] < 0 else 0)}'
    if o == 'fl':
        r = ' + '.join((f'{float(Fraction(*k))}*' if k != (1, 1) else '') + s(x) for x, k in a[1])
        c = Fraction(*a[0])
        return f'({r}{" +%s" % float(c) if c else ""})'
    if o == 'fp':
        return '·'.join(s(x) + (f'^{n}' if n != 1 else '') for x, n in a[0])
    if o == 'flt':
        return f'{s(a[0])} <. {s(a[1])}'
    if o == 'agg':
        nm = a[0] if isinstance(a[0], str) else str(a[0])
        nm = nm.split('::')[-1]
        if t in (LESS, EQUAL, GREATER):
            return {LESS: 'Less', EQUAL: 'Equal', GREATER: 'Greater'}[t]
        if a[0] == OPT:
            return 'None' if a[1] == 0 else f'Some({s(a[2][0])})'
        if a[0] == RES:
            return ('Ok(' if a[1] == 0 else 'Err(') + (s(a[2][0]) if a[2] else '') + ')'
        return ('' if nm == 'tup' else f'{nm}.{a[1]}') + '(' + ', '.join(s(x) if isinstance(x, T) else str(x) for x in a[2]) + ')'
    if o == 'fld':
        return f'{s(a[0])}.{a[1] if a[1] else ""}{"#" if a[1] else ""}{a[2]}'
    if o == 'is':
        return f'{s(a[0])}~{a[1]}'
    if o in ('eq', 'eqk'):
        return f'{s(a[0])} == {s(a[1])}'
    if o == 'at':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'len':
        return f'|{s(a[0])}|'
    if o == 'slice':
        return f'{s(a[0])}[{s(a[1])}..{s(a[2])}]'
    if o == 'one':
        return f'<{s(a[0])}>'
    if o == 'cat':
        return '(' + ' ++ '.join(s(x) for x in a) + ')' if a else '<>'
    if o in BIND:
        return f'{o}%{a[0]}{"<" + ",".join(s(x) for x in a[2]) if a[2] else ""}{{{s(a[1])}}}'
    return o + '(' + ', '.join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a) + ')'
