"""Parallel passes (C24): every chunk counts once, whatever the schedule; no lock is taken while another one is held."""
from train import *
from accum import Acc
import re

PASSES = [('tokengeex::prune::ModelVocabularyPruner', 'prune'), ('tokengeex::merge::ModelVocabularyMerger', 'merge'),
          ('tokengeex::mine::IdiomMiner', 'mine'), ('tokengeex::generate::VocabularyGenerator', 'feed')]


def timeless(t):
    """which random number is drawn does not matter"""
    return LP.mapop(t, 'rand', lambda x: sym('random', x.args[1]))


def given(t, own):
    """results of other loops that do not depend on the current contribution become plain symbols"""
    while True:
        fs = [x for x in subterms(t) if x.op == 'fix' and not any(j in x.fv for j in own)]
        if not fs:
            return t
        x = max(fs, key=lambda y: y.id)
        t = LP.replace(t, x, sym('result', x.id))


def refroot(t):
    while t.op == 'ref' and t.args and not isinstance(t.args[0], str) and getattr(t.args[0], 'op', None) == 'ref':
        t = t.args[0]
    return (t.args[0], t.args[1]) if t.op == 'ref' else None


def result(cx):
    """(run, loop, location, variable) of everything a parallel pass accumulates"""
    out = []
    for ty, m in PASSES:
        b = cx.method(ty, m, crate=CLI, optional=True)
        if b is None:
            raise Undecided(f'{ty}::{m} not found')
        r = cx.run(b, 'TRAIN')
        cx.clear(r)
        for i in (1, 2):
            try:
                S = r.p(i)
            except (KeyError, IndexError):
                continue
            if S is not None:
                wholly(cx, r, S, f'{ty.split("::")[-1]}::{m}')
        for l in r.loops.values():
            if l.par:
                for loc, d in l.vars.items():
                    out.append((r, l, loc, d))
    return out


def c24(cx):
    def sums():
        out = []
        for r, l, loc, d in result(cx):
            where = f'{l.where[0]} ({l.where[1]}:{l.where[2]})'
            t = d['final'] if d['final'] is not None else d['next']
            t = timeless(t)
            phis = {x['phi'] for x in l.vars.values()}
            split = lambda y: y.op == 'call' and 'thread' in str(y.args[0])
            A = Acc(r)
            base, cs = contributions(r, t, A)
            if not cs:
                raise Violation(f'{where}: nothing is added up', r.where)
            for c in cs:
                for x in c.terms():
                    hit = [p for p in phis if p in x.fv or p is x]
                    if hit:
                        raise Violation(f'{where}: what a chunk adds depends on what other chunks have added before: {c.show()[:400]}', r.where)
            for c in cs:
                if find(c.cond, lambda y: y.op == 'trylock'):
                    raise Violation(f'{where}: what a chunk has counted is left out when another thread happens to hold the lock', r.where)
            for c in cs:
                for p, n in A.rounds.items():
                    if any(p in x.fv for x in c.terms()) and find(n, split):
                        raise Violation(f'{where}: what is added for a sample depends on the samples before it in the same chunk: {c.show()[:400]}', r.where)
            odd = [c for c in cs if any(find(given(x, [j for j, _ in c.binders]), split) for x in c.terms())]
            if odd:
                for x in odd[0].terms():
                    why = murky(x)
                    if why and 'loop' not in why:
                        raise Undecided(f'{where}: {why}')
                if any(n.op == 'len' and n.args[0].op in ('entries', 'mkeys') and n.args[0].args[0].op not in ('fix', 'mb') for _, n in odd[0].binders):
                    raise Undecided(f'{where}: what is added is not recognised: {odd[0].show()[:300]}')
                raise Violation(f'{where}: what is added up depends on how the work is split into chunks: {odd[0].show()[:500]}', r.where)
            out.append(f'{l.where[0].split("::")[-1]}: ' + '; '.join(c.show()[:160] for c in cs))
        if not out:
            raise Undecided('no parallel pass found')
        return f'{len(out)} shared results: ' + ' | '.join(out)
    cx.ob('sums', 'each chunk adds its private counts to the shared counts exactly once, independently of the split', sums)

    def split():
        n = 0
        for ty, m in PASSES:
            r = cx.run(cx.method(ty, m, crate=CLI), 'TRAIN')
            for l in r.loops.values():
                if not l.par or l.n is None:
                    continue
                n += 1
                ch = l.n.args[0] if l.n.op == 'len' else None
                if ch is not None and ch.op == 'chunks':
                    if not proves(le(K1, ch.args[1])):
                        cx.holds(le(K1, ch.args[1]), 'the size of a chunk may be zero, which panics', r)
                elif ch is None and murky(l.n):
                    raise Undecided(murky(l.n))
        return f'{n} parallel loops with chunks of at least one sample'
    cx.ob('chunks', 'no chunk size is zero', split)

    def atomic():
        n = 0
        for r, l, loc, d in result(cx):
            where = f'{l.where[0]} ({l.where[1]}:{l.where[2]})'
            for e in r.events:
                if e['kind'] not in ('lock', 'shared') or not any(s[0] == l.lid for s in e['loops']):
                    continue
                rr = refroot(e['ref'])
                if rr is None or rr[0] != loc[0]:
                    continue
                n += 1
                at_ = f'{e["where"][0]} ({e["where"][1]}:{e["where"][2]})'
                if e['kind'] == 'lock' and e['how'] == 'read' or e['kind'] == 'shared' and e['op'] in ('get', 'contains_key', 'load', 'len', 'iter', 'is_empty'):
                    raise Violation('the shared counts are read while chunks are still being added', at_)
                if e['kind'] == 'shared' and e['op'] in ('insert', 'store', 'remove', 'clear', 'swap'):
                    nx = d['next']
                    if e['op'] == 'insert' and any(x.op == 'mset' and x.args[2] is UNIT for x in subterms(nx)):
                        continue
                    raise Violation(f'the shared counts are overwritten ({e["op"]}) by a chunk: additions of other chunks can get lost', at_)
        return f'{n} accesses to shared counts, each adding in one step'
    cx.ob('atomic', 'shared counts are only added to, in one step, while chunks run', atomic)

    def total():
        ty = 'tokengeex::generate::VocabularyGenerator'
        r = cx.run(cx.method(ty, 'feed', crate=CLI), 'TRAIN')
        cx.clear(r)
        f = cx.fnamed(ty, 'frequencies')
        old = fld(r.p(0), 0, f)
        new = timeless(fld(r.mem(0), 0, f))
        shared = [(l, d) for l in r.loops.values() if l.par for loc, d in l.vars.items()]
        if not shared and not any(l.par for l in r.loops.values()):
            raise Undecided('no parallel pass found')
        want = []
        for l, d in shared:
            want += contributions(r, timeless(d['final'] if d['final'] is not None else d['next']))[1]
        base, cs = contributions(r, new)
        cs = [c for c in cs if c.cond is not FALSE]
        why = next((murky(x) for c in cs for x in c.terms() if murky(x) and 'loop' not in murky(x)), None)
        if base is not old:
            if why or murky(base) and 'loop' not in murky(base):
                raise Undecided(f'the counts kept are not recognised: {show(base, 5)[:200]}')
            raise Violation(f'the counts of earlier feeds do not stay: they start from {show(base, 5)[:200]}', r.where)

        def alike(c, d):
            if c.kind != d.kind or len(c.binders) != len(d.binders):
                return False
            e = c.subst(dict(zip([j for j, _ in c.binders], [j for j, _ in d.binders])))
            return e.key is d.key and e.weight is d.weight and veq(e.cond, d.cond)
        for a, b, w in ((want, cs, 'is not added to the counts kept'), (cs, want, 'is added to the counts kept without having been counted by a chunk')):
            for c in a:
                if not any(alike(c, d) for d in b):
                    if why:
                        raise Undecided(why)
                    if shared and len(want) == len(cs):
                        d = cs[want.index(c)] if a is want else want[cs.index(c)]
                        if any(x.op == 'fix' for t in c.terms() + d.terms() for x in subterms(t)) and any(murky(y) for y in c.terms() + d.terms()):
                            raise Undecided('the counts kept are not recognised')
                    raise Violation(f'what a chunk counted {w}: {c.show()[:300]}', r.where)
        return f'{len(cs)} kinds of counts added to those of earlier feeds'
    cx.ob('total', 'what is counted in one feed is added to what was counted before', total)

    cx.ob('locks', 'no thread takes a lock while it holds one', lambda: nesting(cx))


# ------------------------------------------------------------------ lock nesting
GUARD = re.compile(r'RwLockWriteGuard|RwLockReadGuard|MutexGuard|dashmap::mapref|dashmap::iter::Iter|mapref::one|mapref::entry|mapref::multiple|dashmap::lock')
TAKES = re.compile(r'(^|::)(RwLock|Mutex|DashMap|DashSet)(::<.*>)?::(lock|read|write|try_\w+|entry|get|get_mut|insert|remove|remove_if|alter|alter_all|contains_key|contains|iter|iter_mut|retain|clear|len|is_empty|shrink_to_fit|view)$')


class Nest:
    def __init__(self, cx):
        self.cx, self.p = cx, cx.prog
        self.memo = {}
        self.sites = self.held = 0
        self.found = []

    def ty(self, c, x):
        return c.types[x['ty']]['s'] if isinstance(x.get('ty'), int) else ''

    def takes(self, x):
        """x is a call that takes a lock"""
        if x.get('k') != 'Call' or not x.get('callee'):
            return False
        d = self.p.defs[x['callee']['def']]
        q = d['path']
        q = re.sub(r'::<[^<>]*(<[^<>]*(<[^<>]*>)*[^<>]*>)*[^<>]*>', '', q)
        return bool(TAKES.search(q))

    def kids(self, x):
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    yield v
        elif isinstance(x, list):
            yield from (v for v in x if isinstance(v, (dict, list)))

    def any_take(self, h, seen=()):
        """the function takes a lock, itself or through what it calls"""
        if h in self.memo:
            return self.memo[h]
        if h in seen or h not in self.p.bodies:
            return None
        self.memo[h] = None
        r = self.first_take(self.p.bodies[h]['body'], self.p.bodies[h]['crate'], seen + (h,))
        self.memo[h] = r
        return r

    def first_take(self, x, c, seen=()):
        """a lock taken somewhere in x, calls and closures included"""
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if self.takes(y):
                    return f'line {y.get("l")}'
                for h in self.targets(y):
                    r = self.any_take(h, seen)
                    if r:
                        return f'{self.p.defs[h]["path"]} {r}'
            st.extend(self.kids(y))
        return None

    def targets(self, y):
        if y.get('k') == 'Call' and y.get('callee'):
            c = y['callee']
            out = []
            rs = c.get('res')
            if isinstance(rs, dict) and rs.get('def'):
                out.append(rs['def'])
            out.append(c['def'])
            return [h for h in dict.fromkeys(out) if h in self.p.bodies]
        if y.get('k') == 'Closure' and y.get('def') in self.p.bodies:
            return [y['def']]
        return []

    # -- expression temporaries
    def temps(self, x, c):
        """lock-taking calls whose guard may live to the end of the full expression x (nested blocks and closures end theirs)"""
        out = []

        def go(y):
            if isinstance(y, dict):
                k = y.get('k')
                if k == 'Closure':
                    return
                if k == 'Block':
                    return
                if k == 'Match' or k == 'If' or k == 'Loop':
                    for kk in ('s', 'cond', 'c'):
                        if isinstance(y.get(kk), (dict, list)):
                            go(y[kk])
                    return
                if self.takes(y):
                    out.append(y)
                for v in self.kids(y):
                    go(v)
            elif isinstance(y, list):
                for v in y:
                    go(v)
        go(x)
        return out

    def returns_guard(self, y, c):
        return bool(GUARD.search(self.ty(c, y)))

    def fn(self, b):
        self.name = self.p.defs[b['def']]['path']
        self.file = b['file']
        self.block(b['body'], b['crate'])

    def report(self, y, other, c):
        self.found.append(f'{self.name} ({self.file}:{y.get("l")}): a lock is held there while another one is taken ({other})')

    def full(self, x, c):
        """a full expression: temporaries live to its end"""
        ts = self.temps(x, c)
        self.sites += len(ts)
        gs = [t for t in ts if self.returns_guard(t, c)]
        # a guard consumed by a method that gives back no borrow of it is still a temporary
        if gs:
            self.held += 1
            others = [t for t in ts if t is not gs[0]]
            if others:
                self.report(gs[0], f'line {others[0].get("l")}', c)
            else:
                # calls in the same full expression, after the guard is there, and match arms
                inside = self.first_take_after(x, gs[0], c)
                if inside:
                    self.report(gs[0], inside, c)
        self.block(x, c)

    def first_take_after(self, x, g, c):
        st = [x]
        while st:
            y = st.pop()
            if y is g:
                continue
            if isinstance(y, dict):
                if self.takes(y):
                    return f'line {y.get("l")}'
                for h in self.targets(y):
                    r = self.any_take(h)
                    if r:
                        return f'{self.p.defs[h]["path"]} {r}'
            st.extend(self.kids(y))
        return None

    def block(self, x, c):
        """finds the blocks in x"""
        if isinstance(x, list):
            for v in x:
                self.block(v, c)
            return
        if not isinstance(x, dict):
            return
        if x.get('k') == 'Block':
            b = x['b']
            live = None
            for s in b['stmts']:
                e = s.get('init') if s.get('k') == 'Let' else s.get('e')
                if live is not None and e is not None:
                    if self.drops(e, live[1]):
                        live = None
                    else:
                        t = self.first_take(e, c)
                        if t:
                            self.report(live[0], t, c)
                            live = None
                if e is not None:
                    self.full(e, c)
                if s.get('k') == 'Let' and e is not None:
                    vs = [v for v in self.bound(s['pat']) if GUARD.search(c.types[v['ty']]['s'])]
                    if vs and self.first_direct(e, c):
                        self.held += 1
                        live = (e, {v['var'] for v in vs})
            if b.get('e') is not None:
                if live is not None:
                    t = self.first_take(b['e'], c)
                    if t:
                        self.report(live[0], t, c)
                self.full(b['e'], c)
            return
        for v in self.kids(x):
            self.block(v, c)

    def first_direct(self, e, c):
        return True

    def bound(self, p):
        out = []
        st = [p]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if y.get('k') == 'Bind':
                    out.append(y)
            st.extend(self.kids(y))
        return out

    def drops(self, e, vars_):
        """drop(guard)"""
        st = [e]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if y.get('k') == 'Call' and y.get('callee') and self.p.defs[y['callee']['def']]['path'].endswith('mem::drop'):
                    st2 = [y]
                    while st2:
                        z = st2.pop()
                        if isinstance(z, dict) and z.get('k') == 'Var' and z.get('var') in vars_:
                            return True
                        st2.extend(self.kids(z))
            st.extend(self.kids(y))
        return False


def nesting(cx):
    n = Nest(cx)
    fns = 0
    for b in cx.prog.bodies.values():
        if b['crate'].id in (LIB, CLI):
            fns += 1
            n.fn(b)
    if n.found:
        raise Violation(n.found[0], n.found[0].split(':')[0])
    return f'{fns} functions and closures, {n.sites} lock operations, {n.held} held guards'
