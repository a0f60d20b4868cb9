"""Obligations: recorded one by one with what was analysed and how it was decided."""
import os, signal, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import loops as LP
import terms as TT
from terms import *
from interp import Interp, root
import anchors as AN
from empties import noted

K0, K1 = K(0), K(1)
LIB, CLI, PY = 'Rlib', 'Executable', 'Cdylib'


class Undecided(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, construct=None):
        super().__init__(msg)
        self.construct = construct


class Timeout(Exception):
    pass


class Res:
    """the value-flow summary of one function"""

    def __init__(self, I, body, ret, st):
        self.I, self.body, self.ret, self.st = I, body, ret, st
        self.path = I.p.defs[body['def']]['path']
        self.file, self.line = body['file'], body['line']
        self.events, self.loops = I.events, I.loops
        self.kids = {}

    def p(self, i):
        from interp import pname
        b = self.body['params'][i]
        return self.I.note(sym('p', i, pname(b['pat']) or 'a'), self.I.strip(self.body['crate'], self.body['crate'].types[b['ty']]))

    def mem(self, i):
        return self.st.mem.get(root('P', i))

    @property
    def where(self):
        return f'{self.path} ({self.file}:{self.line})'

    def ev(self, *kinds):
        return [e for e in self.events if e['kind'] in kinds]

    def top(self, loop):
        """loops directly inside `loop` (None: outermost)"""
        return [l for l in self.loops.values() if (l.stack[-1][0] if l.stack else None) == (loop.lid if loop else None)]

    def inside(self, loop):
        return [l for l in self.loops.values() if any(s[0] == loop.lid for s in l.stack)]


class Ctx:
    def __init__(self, prog, prop, limit=240):
        self.prog, self.prop, self.limit = prog, prop, limit
        self.obs = []          # (key, status, where, rule, detail)
        self.cache = {}
        self.analysed = {}
        self.loops = self.callsites = 0

    # -------------------------------------------------------------- analysis
    def body(self, path, crate=None, optional=False):
        bs = self.prog.find(path, crate)
        if len(bs) == 1:
            return bs[0]
        if optional:
            return None
        raise Undecided(f'{path}: {len(bs)} definitions found')

    def method(self, ty, name, trait=None, crate=None, optional=False):
        b = self.prog.method(ty, name, trait, crate)
        if b is None and not optional:
            raise Undecided(f'{ty}::{name} not found')
        return b

    def run(self, body, anchors='TRIE', extra=None, tag='', **opts):
        key = (body['def'], anchors, tag)
        r = self.cache.get(key)
        if isinstance(r, Exception):
            raise r
        if r is None:
            a = dict(getattr(AN, anchors)) if anchors else {}
            a.update(extra or {})
            path = self.prog.defs[body['def']]['path']
            a.pop(path, None)
            I = Interp(self.prog, a)
            for k, v in opts.items():
                setattr(I, k, v)

            def alarm(*_):
                raise Timeout()
            old = signal.signal(signal.SIGALRM, alarm)
            signal.alarm(self.limit)
            t = time.time()
            try:
                v, st = I.analyse(body)
                r = Res(I, body, v, st)
                self.analysed[path] = self.analysed.get(path, 0) + round(time.time() - t, 2)
                self.loops += len(I.loops)
                self.callsites += len(I.ev('call') if hasattr(I, 'ev') else [e for e in I.events if e['kind'] == 'call'])
            except Timeout:
                r = Undecided(f'{path}: analysis exceeded its time limit')
            except RecursionError:
                r = Undecided(f'{path}: too deep')
            except Exception as ex:
                r = Undecided(f'{path}: not analysable ({type(ex).__name__}: {str(ex)[:120]})')
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            self.cache[key] = r
            if isinstance(r, Exception):
                raise r
        return r

    def model(self, name, anchors='TRIE', **kw):
        return self.run(self.method('tokengeex::model::Model', name, crate=LIB), anchors, **kw)

    def tok(self, name, anchors='TOK', **kw):
        return self.run(self.method('tokengeex::tokenizer::Tokenizer', name, crate=LIB), anchors, **kw)

    # -------------------------------------------------------------- fields
    def fidx(self, adt, ty):
        """index of the only field of `adt` whose type satisfies ty"""
        a = self.prog.adt_by_path.get(adt)
        if a is None:
            raise Undecided(f'type {adt} not found')
        f = a['variants'][0]['fields']
        types = a['crate'].types
        ok_ = [i for i, x in enumerate(f) if ty(types[x['ty']]['s'])]
        if len(ok_) != 1:
            raise Undecided(f'{adt}: {len(ok_)} fields of the expected type')
        return ok_[0]

    def fnamed(self, adt, name):
        a = self.prog.adt_by_path.get(adt)
        if a is None:
            raise Undecided(f'type {adt} not found')
        ix = [i for i, x in enumerate(a['variants'][0]['fields']) if x['name'] == name]
        if len(ix) != 1:
            raise Undecided(f'{adt}: no field {name}')
        return ix[0]

    def fty(self, adt):
        a = self.prog.adt_by_path.get(adt)
        if a is None:
            raise Undecided(f'type {adt} not found')
        types = a['crate'].types
        return [(x['name'], types[x['ty']]['s']) for x in a['variants'][0]['fields']]

    def vidx(self, adt, name):
        a = self.prog.adt_by_path.get(adt)
        if a is None or name not in a['vidx']:
            raise Undecided(f'{adt}::{name} not found')
        return a['vidx'][name]

    # -------------------------------------------------------------- obligations
    def ob(self, key, rule, f, *args):
        t = time.time()
        try:
            d = f(*args)
            self.obs.append((key, 'ok', None, rule, d if isinstance(d, str) else '', time.time() - t))
            return True
        except Undecided as ex:
            self.obs.append((key, 'undecided', None, rule, str(ex), time.time() - t))
        except Violation as ex:
            self.obs.append((key, 'violation', ex.construct, rule, str(ex), time.time() - t))
        except RecursionError as ex:
            self.obs.append((key, 'undecided', None, rule, 'recursion limit', time.time() - t))
        except Exception as ex:
            self.obs.append((key, 'undecided', None, rule, 'shape not recognised: %s: %s' % (type(ex).__name__, str(ex)[:200]), time.time() - t))
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
        return False

    # -------------------------------------------------------------- comparison
    def same(self, actual, expected, what, r, pc=TRUE):
        """actual must equal expected wherever pc holds"""
        if veq(actual, expected, pc):
            return
        if hasattr(r, 'loops'):
            inv = invariants(r)
            if inv is not TRUE and veq(actual, expected, AND(pc, inv)):
                return
        if emptycases(actual, expected, pc):
            return
        actual, expected = deeprestrict(actual, pc), deeprestrict(expected, pc)
        why = murky(actual, expected)
        msg = f'{what}: got {show(actual, 14)[:900]}; required {show(expected, 14)[:900]}'
        if why:
            ls, rs = deepleaves(actual), deepleaves(expected)
            if len(ls) * len(rs) <= 64:
                for g, x in ls:
                    for h, y in rs:
                        if not murky(x, expected) and not murky(AND(g, h), expected) and AND(pc, g, h) is not FALSE and not veq(x, y, AND(pc, g, h)):
                            raise Violation(f'{what}: got {show(x, 14)[:600]}; required {show(y, 14)[:600]} when {show(AND(g, h), 10)[:300]}', r.where)
            raise Undecided(f'{what}: {why}; got {show(actual, 10)[:300]}')
        raise Violation(msg, r.where)

    def holds(self, cond, what, r, deps=()):
        """cond must be TRUE"""
        if cond is TRUE or proves(cond):
            return
        for t in (cond,) + tuple(deps):
            why = murky(t, None)
            if why:
                raise Undecided(f'{what}: {why}')
        raise Violation(f'{what}: not implied, fails when {show(NOT(cond), 14)[:700]}', r.where)

    def must(self, cond, what, r):
        if not cond:
            raise Violation(what, r.where)

    def clear(self, r, what='', only=None):
        """nothing unmodelled was met"""
        u = [x for x in r.I.unk if only is None or only(x)]
        if u:
            raise Undecided(f'{what or r.path}: calls {u[0][0]} at {u[0][1]}, which is not modelled')


MURKY = {'unk': 'an unmodelled operation is involved', 'app': 'an unknown function is applied', 'undef': 'an uninitialised value is read',
         'eff': 'an opaque effect is involved', 'deref': 'an unresolved pointer is read', 'hmax': 'heap order'}


def deeprestrict(t, c):
    """restrict, also below constructors"""
    t = restrict(t, c)
    if not any(l.op == 'agg' and any(isinstance(x, T) and x.op in ('ite', 'agg') for x in l.args[2]) for _, l in leaves(t)):
        return t
    out = None
    for g, l in leaves(t):
        if l.op == 'agg':
            l = mk('agg', l.args[0], l.args[1], tuple(deeprestrict(x, AND(c, g)) if isinstance(x, T) else x for x in l.args[2]))
        out = l if out is None else ite(g, l, out)
    return out


def deepleaves(t):
    """[(guard, leaf)] where no leaf is a constructor of a choice"""
    out = []
    for g, l in leaves(t):
        if l.op == 'agg' and isinstance(l.args[2], tuple):
            pick = [(TRUE, ())]
            for x in l.args[2]:
                xs = deepleaves(x) if isinstance(x, T) else [(TRUE, x)]
                pick = [(AND(h, k), a + (y,)) for h, a in pick for k, y in xs if AND(h, k) is not FALSE]
                if len(pick) > 64:
                    return [(TRUE, t)]
            out += [(AND(g, h), mk('agg', l.args[0], l.args[1], a)) for h, a in pick if AND(g, h) is not FALSE]
        else:
            out.append((g, l))
    return out


def murky(t, expected=None):
    """why a difference in t cannot be judged, or None"""
    exp = set(subterms(expected)) if expected is not None else set()
    nfix = 0
    for x in subterms(t):
        if x in exp:
            continue
        if x.op in MURKY:
            return MURKY[x.op]
        if x.op == 'agg' and x.args[0] == 'clos':
            return 'a closure is stored'
        if x.op == 'sym' and x.args and x.args[0] in ('phi', 'j', 'jx', 'jc'):
            return 'a loop state is not in closed form'
        if x.op in ('fix', 'done'):
            return 'a loop is not in closed form'
    return None


def fieldsof(cx):
    """field positions of the central types, by type"""
    class F:
        pass
    F.vocab = cx.fidx('tokengeex::model::Model', lambda s: s.startswith('std::vec::Vec<') or 'Vec<' in s and 'HashMap' not in s)
    F.t2i = cx.fidx('tokengeex::model::Model', lambda s: 'HashMap<' in s)
    F.trie = cx.fidx('tokengeex::model::Model', lambda s: 'Trie<' in s)
    S = 'tokengeex::ScoredToken'
    F.value = cx.fidx(S, lambda s: 'Vec<u8>' in s)
    F.score = cx.fidx(S, lambda s: s == 'f64')
    F.keep = cx.fidx(S, lambda s: s == 'bool')
    T_ = 'tokengeex::tokenizer::Tokenizer'
    F.model = cx.fidx(T_, lambda s: s.endswith('Model'))
    F.procs = cx.fidx(T_, lambda s: 'Vec<' in s and 'ProcessorWrapper' in s)
    F.specials = cx.fidx(T_, lambda s: 'Vec<' in s and 'String' in s and 'HashMap' not in s)
    F.smap = cx.fidx(T_, lambda s: 'HashMap<' in s)
    F.v = lambda m: fld(m, 0, F.vocab)
    F.val = lambda t: fld(t, 0, F.value)
    F.sc = lambda t: fld(t, 0, F.score)
    F.kp = lambda t: fld(t, 0, F.keep)
    return F


def helper(cx, h):
    """a function nobody outside its crate can call: it is judged where it is inlined"""
    d = cx.prog.defs[h]
    return not d.get('pub') and not d.get('impl_trait')


def J(tag='q'):
    s = sym('q', tag)
    TT.declare_nonneg(s)
    return s


def exists(n, f, tag='q'):
    j = J(tag)
    return bexists(n, j, f(j))


def first(n, f, tag='q'):
    j = J(tag)
    t = bfirst(n, j, f(j))
    TT.declare_nonneg(t)
    return t


def concat(n, f, tag='q'):
    j = J(tag)
    return bigcat(n, j, f(j))


def panics(cx, r, what='', allow=lambda e: False, via=None):
    """every panic point of the analysed code is unreachable"""
    n = 0
    for e in r.events:
        k = e['kind']
        if k not in ('panic', 'index', 'slice', 'sub', 'div', 'mapindex') or allow(e):
            continue
        n += 1
        pc = e['pc']
        loc = f"{e['where'][0]}:{k}"
        if k == 'panic':
            c = NOT(pc)
        elif k == 'index':
            c = OR(NOT(pc), AND(lt(e['i'], seqlen(e['v'])), le(K0, e['i'])))
        elif k == 'sub':
            c = OR(NOT(pc), le(e['b'], e['a']))
        elif k == 'slice':
            c = OR(NOT(pc), AND(le(e['lo'], e['hi']), le(e['hi'], seqlen(e['v']))))
        elif k == 'mapindex':
            c = OR(NOT(pc), has(e['v'], e['i']))
        else:
            c = OR(NOT(pc), NOT(eq(e['b'], K0)))
        if via:
            c = via(c)
        if not proves(c) and not proves(OR(NOT(invariants(r)), c)):
            why = murky(c)
            if why:
                raise Undecided(f'{what}{loc}: {why}')
            raise Violation(f'{what}possible panic ({k}) in {e["where"][0]}: when {show(NOT(c), 14)[:600]}', f'{e["where"][0]} ({e["where"][1]}:{e["where"][2]})')
    return f'{n} panic points unreachable'


def invariants(r):
    """inequalities between the integer variables of each loop, its counter and its bound that hold on
    entry and are kept by every iteration (candidates are dropped until the rest is inductive)"""
    if hasattr(r, '_inv'):
        return r._inv
    out = TRUE

    def integer(t):
        return all(l.op in ('k', 'lin', 'len', 'first', 'imin', 'imax', 'idx', 'cnt') for _, l in leaves(t))
    for l in r.loops.values():
        vs = [d for d in l.vars.values() if integer(d['init']) and d['phi'].op == 'sym']
        if not vs or len(vs) > 4:
            continue
        cands = []
        for d in vs:
            p, i = d['phi'], d['init']
            cands += [le(i, p), le(p, i)]
            if l.n is not None and l.n.op != 'inf':
                cands += [le(p, l.n), le(sub(p, i), l.j)]
            cands += [le(p, e['phi']) for e in vs if e is not d]
        entry = {d['phi']: d['init'] for d in vs}
        step = {d['phi']: d['next'] for d in vs}
        if l.j is not None:
            entry[l.j], step[l.j] = K0, add(l.j, K1)
        cands = [c for c in cands if proves(subst(c, entry))]
        here = l.endpc if l.n is None or l.n.op == 'inf' else AND(lt(l.j, l.n), l.endpc)
        while cands:
            hyp = AND(here, *cands)
            keep = [c for c in cands if proves(OR(NOT(hyp), subst(c, step)))]
            if len(keep) == len(cands):
                break
            cands = keep
        out = AND(out, *cands)
        if l.n is not None and l.n.op != 'inf' and all(d['final'] is not None for d in vs):
            end = {d['phi']: d['final'] for d in vs}
            end[l.j] = l.n
            whole = atom(mk('done', l.lid, l.G)) if l.exits else TRUE
            out = AND(out, OR(NOT(whole), AND(*[subst(c, end) for c in cands])))
    r._inv = out
    return out


def facts(t, depth=2):
    """valid facts about the searches, characters and prefixes that occur in t"""
    out, done, todo = TRUE, set(), [t]
    for _ in range(depth):
        nxt = []
        for u in todo:
            for x in subterms(u):
                if x in done:
                    continue
                done.add(x)
                f = None
                if x.op == 'first' and len(x.args[2]) == 1 and not any(b.op == 'bv' for b in x.fv):
                    n = x.args[2][0]
                    j = J('fact')
                    E = bexists(n, j, open_(x, j)) if n.op != 'inf' else TRUE
                    f = OR(NOT(E), AND(open_(x, x), lt(x, n) if n.op != 'inf' else TRUE))
                elif x.op in ('imin', 'imax') and not any(b.op == 'bv' for b in x.fv):
                    f = AND(*[le(x, a) if x.op == 'imin' else le(a, x) for a in x.args])
                    f = AND(f, OR(*[AND(le(a, x), le(x, a)) for a in x.args]))
                elif x.op == 'startswith' and not any(b.op == 'bv' for b in x.fv):
                    f = OR(NOT(atom(x)), le(seqlen(x.args[1]), seqlen(x.args[0])))
                elif x.op == 'fld' and x.args[0].op == 'at' and x.args[0].args[0].op == 'charidx' and x.args[2] == 0 and not any(b.op == 'bv' for b in x.fv):
                    c, i = x.args[0].args
                    f = OR(NOT(lt(i, seqlen(c))), lt(x, seqlen(c.args[0])))
                    TT.declare_nonneg(x)
                if f is not None and f is not TRUE:
                    out = AND(out, f)
                    nxt.append(f)
        todo = nxt
    return out


def proves(c):
    """c holds, using the facts"""
    if c is TRUE:
        return True
    d = OR(NOT(facts(c)), c)
    if d is TRUE:
        return True
    n = 0
    for lits in falsepaths(d):
        n += 1
        if n > 400 or not contradictory(lits):
            return False
    return True


def falsepaths(d):
    """literals of each path of the diagram d to FALSE"""
    st = [(d, ())]
    while st:
        t, ls = st.pop()
        if t is FALSE:
            yield ls
        elif t.op == 'ite':
            st.append((t.args[1], ls + ((t.args[0], True),)))
            st.append((t.args[2], ls + ((t.args[0], False),)))


_hasfact = {}


def veq(a, b, pc=TRUE):
    """equal wherever pc holds, using the valid facts about searches and bounds when the normal forms alone do not tell"""
    if TT.veq(a, b, pc):
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return False
    n = 0
    for t in (a, b):
        h = _hasfact.get(t)
        if h is None:
            h = _hasfact[t] = sum(1 for x in subterms(t) if x.op == 'first' and not any(v.op == 'bv' for v in x.fv))
        n += h
    if not n or n > 60:
        return False
    f = facts(mk('tuple2', a, b), 1)
    return f is not TRUE and TT.veq(a, b, AND(pc, f))


OPENS = ('File::create', 'File::create_new', 'OpenOptions::open')
# operations on an open file
FILEOPS = ('Write::write_all', 'Write::write', 'Write::flush', 'to_writer', 'File::sync_all', 'File::sync_data', 'BufWriter::into_inner')


def isok(x):
    return isvar(x, 0, 2)


def filewrites(events):
    """the file operations, where an opened file that is written as a whole counts as one write"""
    fs = [e for e in events if e['kind'] == 'fs']
    opens = [e for e in fs if e['name'] in OPENS and not (e['name'] == 'OpenOptions::open' and e['flags'].op == 'openopt' and
             all(e['flags'].args[i] is FALSE for i in (0, 1)))]
    if not opens:
        return fs
    out = [e for e in fs if e not in opens and e['name'] not in FILEOPS]
    left = [e for e in fs if e['name'] in FILEOPS]
    wh = lambda e: f'{e["where"][0]} ({e["where"][1]}:{e["where"][2]})'
    for o in opens:
        h = fld(o['ret'], 0, 0)

        def under(x):
            while isinstance(x, T) and x.op == 'bufw':
                x = x.args[0]
            return x
        ops = [e for e in left if under(e['path']) is h]
        left = [e for e in left if e not in ops]
        if o['loops'] or any(e['loops'] for e in ops):
            raise Undecided('a file is written in a loop')
        bad = None
        if o['name'] == 'OpenOptions::open':
            if o['flags'].op != 'openopt' or any(x not in (TRUE, FALSE) for x in o['flags'].args):
                raise Undecided('how a file is opened is not recognised')
            w, app, trunc, create, new, _ = (x is TRUE for x in o['flags'].args)
            if app:
                bad = 'what is written is appended to an existing file'
            elif not trunc and not new:
                bad = 'an existing file is overwritten without being cut, so that the rest of a longer one stays'
        ws = [e for e in ops if e['name'] in ('Write::write_all', 'Write::write', 'to_writer')]
        if not ws:
            bad = bad or 'a file is opened and nothing is written to it'
        good, reach = isok(o['ret']), o['pc']
        data = []
        waiting = None
        for e in ops:
            if e['name'] == 'Write::write':
                bad = bad or 'a single write need not take all of the data'
            if e in ws:
                if not proves(OR(NOT(AND(reach, good)), e['pc'])):
                    why = murky(AND(reach, e['pc']))
                    if why:
                        raise Undecided(f'a file is written only sometimes: {why}')
                    bad = bad or 'a file is opened and its contents are written only sometimes'
                d = e['data']
                data.append(fld(d, 0, 0) if e['name'] == 'to_writer' else d)
            elif not proves(OR(NOT(AND(reach, good)), e['pc'])):
                raise Undecided(f'{e["name"]} happens only sometimes')
            if e['path'].op == 'bufw':
                waiting = e if e in ws else None
            good = AND(good, isok(e['ret']))
        if waiting is not None:
            bad = bad or 'a buffered file is not flushed, so that a failure to write goes unnoticed'
        if bad:
            raise Violation(bad, wh(o))
        out.append(dict(o, name='write', data=cat(*data) if len(data) > 1 else data[0], ret=ite(good, ok(UNIT), err(mk('sym', 'ioerror', o['seq'])))))
    if left:
        raise Undecided(f'{left[0]["name"]} of a file that is not recognised')
    return sorted(out, key=lambda e: e['seq'])


def emptycases(a, b, pc=TRUE, depth=3):
    """equal for each of the few lengths of a sequence the terms tell apart, and for all others"""
    if not isinstance(a, T) or not isinstance(b, T):
        return False
    for t in find(mk('tuple2', a, b, pc), lambda x: x.op == 'lt0' and -3 <= x.args[0] <= -1 and len(x.args[1]) == 1 and x.args[1][0][1] == 1 and x.args[1][0][0].op == 'len'):
        n = t.args[1][0][0]
        X = n.args[0]
        if X.op not in ('sym', 'fld', 'slice', 'p', 'items') or any(v.op == 'bv' for v in X.fv):
            continue
        E = atom(t)

        def has(k):
            return lambda x: noted(LP.replace(restrict(x, AND(E, ieq(n, mk('k', k)))), *((n, mk('k', k)) if k else (X, EMPTY))))
        out = []
        for f, h in [(has(k), TRUE) for k in range(-t.args[0])] + [(lambda x: restrict(x, NOT(E)), NOT(E))]:
            g = AND(f(pc), h)
            out.append(g is FALSE or veq(f(a), f(b), g) or depth > 0 and emptycases(f(a), f(b), g, depth - 1))
            if not out[-1]:
                break
        if all(out):
            return True
    return False


def contradictory(lits):
    """the linear inequalities among the literals have no common solution (Fourier-Motzkin)"""
    rows = set()
    vars_ = set()
    for a, v in lits:
        if a.op != 'lt0':
            continue
        c, d = a.args[0], dict(a.args[1])
        # c + d < 0 as c + 1 + d <= 0 ; negated: -c - d <= 0
        row = (c + 1, d) if v else (-c, {t: -k for t, k in d.items()})
        rows.add((row[0], tuple(sorted(row[1].items(), key=lambda x: x[0].id))))
        vars_ |= set(d)
    for t in vars_:
        if nonneg(t):
            rows.add((0, ((t, -1),)))
    from fractions import Fraction
    rows = [(c, dict(d)) for c, d in rows]
    for _ in range(len(vars_)):
        if any(not d and c > 0 for c, d in rows):
            return True
        live = {}
        for c, d in rows:
            for t, k in d.items():
                p, q = live.get(t, (0, 0))
                live[t] = (p + (k > 0), q + (k < 0))
        if not live:
            return False
        t = min(live, key=lambda t: live[t][0] * live[t][1])
        up = [(c, d) for c, d in rows if d.get(t, 0) > 0]
        lo = [(c, d) for c, d in rows if d.get(t, 0) < 0]
        rest = [(c, d) for c, d in rows if t not in d]
        if len(up) * len(lo) > 600:
            return False
        for c1, d1 in up:
            for c2, d2 in lo:
                k1, k2 = d1[t], -d2[t]
                c = c1 * k2 + c2 * k1
                d = {}
                for x in set(d1) | set(d2):
                    k = d1.get(x, 0) * k2 + d2.get(x, 0) * k1
                    if k:
                        d[x] = k
                if d or c > 0:
                    rest.append((c, d))
        rows = rest
    return any(not d and c > 0 for c, d in rows)


def foldseq(seq, init, f, reverse=False):
    """f(seq[n-1], … f(seq[0], init)) (or in reverse order) as the engine writes it"""
    n = seqlen(seq)
    ph = sym('phi', 'spec', root('spec'), ())
    j = J('fold')
    i = sub(sub(n, K1), j) if reverse else j
    return bind('fix', (ph, j), tup(f(at(seq, i), ph)), (n, init))


def mainloop(r, pred=lambda l: True, counted=None):
    ls = [l for l in r.top(None) if pred(l) and (counted is None or (l.n is not None) == counted)]
    if len(ls) != 1:
        raise Undecided(f'{r.path}: {len(ls)} candidate main loops')
    return ls[0]


def role(loop, what, pred):
    vs = [(loc, d) for loc, d in loop.vars.items() if pred(d)]
    if len(vs) != 1:
        raise Undecided(f'{loop.where[0]}: {len(vs)} candidates for the {what}')
    return vs[0][1]


def phi(d):
    t = d['phi']
    return t
