"""What is known of empty sequences, and returns taken early for them."""
import loops as LP
import terms as TT
from terms import *


def noted(t):
    """what is known of empty sequences, and of loops over a few elements"""
    def count(x):
        n = x.args[2][0]
        return n.args[0] if n.op == 'k' and isinstance(n.args[0], int) and 0 <= n.args[0] <= 3 else None

    def unfix(x):
        c = count(x)
        if c is None and len(x.args[2]) == 2:
            # what every round leaves as it is
            v = x.args[2][1]
            if v is EMPTY and fld(TT.open_(x, v, mk('sym', 'round', x.id)), 0, 0) is v:
                return v
        if c is None or len(x.args[2]) != 2:
            return x
        v = x.args[2][1]
        for i in range(c):
            v = fld(TT.open_(x, v, mk('k', i)), 0, 0)
        return v

    def unex(x):
        c = count(x)
        return x if c is None else OR(*[TT.open_(x, mk('k', i)) for i in range(c)])

    def unfirst(x):
        c = count(x)
        if c is None:
            return x
        v = mk('k', c)
        for i in reversed(range(c)):
            v = ite(TT.open_(x, mk('k', i)), mk('k', i), v)
        return v

    def unbc(x):
        c = count(x)
        return x if c is None else cat(*[TT.open_(x, mk('k', i)) for i in range(c)])
    def same(x):
        return EMPTY if x.args[0] is EMPTY else x
    def norep(x):
        return EMPTY if x.args[1] is mk('k', 0) else x
    for op, f in (('rep', norep), ('lossy', same), ('chunks', same), ('shuffled', same), ('sorted', same), ('rev', same), ('fix', unfix), ('ex', unex), ('first', unfirst), ('bc', unbc)):
        if find(t, lambda x: x.op == op):
            t = LP.mapop(t, op, f)
    return t


SHORTCUTS = ('isnf', 'charclass', 'nfquick', 'sfind')
FORMS = {'nfc': ('nfc',), 'nfd': ('nfd',), 'nfkc': ('nfkc', 'nfc'), 'nfkd': ('nfkd', 'nfd')}


def unchanged(c, t):
    """t, where text that c says is left as it is by an operation stands for the result of that operation"""
    if c.op == 'charclass' and c.args[0] == 'is_ascii':
        for f in FORMS:
            t = LP.replace(t, mk(f, c.args[1]), c.args[1])
    elif c.op == 'isnf':
        for f in FORMS[c.args[0]]:
            t = LP.replace(t, mk(f, c.args[1]), c.args[1])
    elif c.op == 'is' and c.args[0].op == 'nfquick' and c.args[1] == 0:
        t = LP.replace(t, mk(c.args[0].args[0], c.args[0].args[1]), c.args[0].args[1])
    elif c.op == 'is' and c.args[0].op == 'sfind' and c.args[1] == 0:
        x, n = c.args[0].args
        n = chr(n.args[0]).encode() if n.op == 'kc' else n.args[0] if n.op == 'kb' else None
        if n is not None:
            for y in find(t, lambda y: y.op in ('replace', 'replacen') and y.args[0] is x and y.args[1].op == 'kb'):
                if n in y.args[1].args[0]:
                    t = LP.replace(t, y, x)
    return t


def unpeel(t, n):
    """a fold of the elements after the first over what the first gives is the fold of all of them, there being a first"""
    def whole(x):
        if len(x.args[2]) != 2 or x.args[2][0] is not TT.sub(n, mk('k', 1)):
            return x
        v = x.args[2][1]
        acc, j = sym('acc', 'peel', x.id), sym('j', 'peel', x.id)
        b = TT.open_(x, acc, TT.sub(j, mk('k', 1)))
        if b.op != 'agg' or len(b.args[2]) != 1:
            return x
        for y in LP.subterms(v):
            if y is not v and TT.subst(b.args[2][0], {acc: y, j: mk('k', 0)}) is v:
                return TT.bind('fix', (acc, j), b, (n, y))
        return x
    return LP.mapop(t, 'fix', whole)


def settle(v):
    """the value without a case for an empty sequence, where the value for others is the same for it"""
    memo = {}

    def bare(x, g):
        while x.op in ('sorted', 'rev', 'shuffled', 'items'):
            x = restrict(x.args[0], g)
        return x

    def go(x, depth=0, pc=TRUE):
        if x.op != 'ite' or depth > 12:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        c, hi, lo = x.args
        C = atom(c) if c.op != 'ite' else c
        hi, lo = go(hi, depth + 1, AND(pc, C)), go(lo, depth + 1, AND(pc, NOT(C)))
        r = ite(C, hi, lo) if (hi, lo) != x.args[1:] else x
        if c.op == 'lt0' and c.args[0] == -1 and len(c.args[1]) == 1 and c.args[1][0][1] == 1 and c.args[1][0][0].op == 'len':
            n = c.args[1][0][0]
            X = n.args[0]
            if X.op != 'ite' and not any(s.op == 'bv' for s in X.fv) and find(lo, lambda y: y is X):
                def none(y):
                    return noted(LP.replace(LP.replace(y, n, mk('k', 0)), X, EMPTY))
                if find(lo, lambda y: y.op == 'fix'):
                    u = unpeel(lo, n)
                    if u is not lo and none(u) is hi:
                        lo = u
                e = none(lo)
                if e is hi or e is none(hi) or e is EMPTY and none(bare(hi, AND(pc, C))) is EMPTY:
                    r = lo
        elif unchanged(c, lo) is hi and hi is not lo:
            r = lo
        memo[x] = r
        return r
    return go(v)
