"""Structured abstract interpreter over THIR. One pass per function: joins are
diagram merges, loops are summarised by a fixpoint over modified locations."""
import struct
from terms import *
from thir import simp
import terms as TT

IMUT = ('RwLock', 'Mutex', 'DashMap', 'Atomic', 'OnceLock', 'LazyLock', '::Cell<', 'UnsafeCell')


class St:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return St(dict(self.mem), self.pc)

    def dead(self):
        return self.pc is FALSE


class Frame:
    def __init__(self, fid, body, parent=None):
        self.id, self.body, self.crate, self.parent = fid, body, body['crate'], parent
        self.depth = parent.depth + 1 if parent else 0
        self.rets = []


class LoopInfo:
    def __init__(self):
        self.par = False


class Unmodelled(Exception):
    pass


def root(*k):
    return mk('root', *k)


class Interp:
    def __init__(self, prog, anchors=None, inline_filter=None):
        self.p = prog
        self.anchors = anchors or {}
        self.noinline = inline_filter or (lambda path: False)
        self.events = []
        self.loops = {}
        self.modset = {}
        self.closed = {}
        self.looptype = {}
        self.lstack = []
        self.looplog = []
        self.finof = {}
        self.pend = {}
        self.unk = []
        self.lost = {}  # temporaries standing for places not located
        self.seqsyms = set()
        self.gets = {}  # v.get(i) -> how it was asked for
        self.labels = []
        self.callstack = []
        self.keyctr = 0
        self.steps = 0
        self.panics = []
        self.quiet = 0
        self.expand_consts = False
        self.par_next = False
        self.uniq = ()
        self.lmeta = None
        import models2
        self.models = models2.MODELS

    # ------------------------------------------------------------ utilities
    def where(self, fr, e):
        return (self.p.defs[fr.body['def']]['path'], fr.body['file'], e.get('l', 0) if e else 0)

    def event(self, kind, st, fr, e, **kw):
        if st.dead():
            return
        kw.update(kind=kind, pc=st.pc, loops=tuple(self.lstack), where=self.where(fr, e) if fr else None, seq=len(self.events))
        self.events.append(kw)

    def unknown(self, what, fr, e, *args):
        w = self.where(fr, e) if fr else None
        self.unk.append((what, w))
        return mk('unk', what, *[a for a in args if isinstance(a, T)])

    def tyof(self, fr, e):
        return fr.crate.types[e['ty']]

    def strip(self, crate, t):
        while t['k'] in ('ref', 'ptr'):
            t = crate.types[t['args'][0]]
        return t

    def adtkey(self, h):
        a = self.p.adts[h]
        k = a.get('key')
        if k is None:
            k = a['path']
            if a['local'] and a['crate'].id == 'Executable':
                k = 'cli:' + k.split('::', 1)[1]
            a['key'] = k
        return k

    def note(self, t, ty):
        """use static types: unsigned leaves are non-negative, booleans are diagrams"""
        k = ty['k']
        if k == 'bool':
            if t.op != 'ite' and t is not TRUE and t is not FALSE:
                return atom(t)
        elif k == 'uint' or (k == 'ref' and False):
            if t.op == 'ite':
                for _, l in leaves(t):
                    if l.op not in ('lin', 'k'):
                        TT._nonneg.add(l)
            elif t.op not in ('lin', 'k'):
                TT._nonneg.add(t)
        return t

    # ------------------------------------------------------------ memory
    def explode(self, v, ty_key, nfields, variant=0):
        return agg(ty_key, variant, [fld(v, variant, i) for i in range(nfields)])

    def read(self, st, r, path):
        v = st.mem.get(r)
        if v is None:
            if r.op == 'rootd':
                v = mk('deref', r.args[0])
            else:
                v = mk('undef', r)
        for p in path:
            v = self.step_read(v, p)
        return restrict(v, st.pc)

    def step_read(self, v, p):
        if p[0] == 'f':
            return fld(v, p[1], p[2])
        if p[0] == 'i':
            return at(v, p[1])
        if p[0] == 'k':
            return mget(v, p[1])
        if p[0] == 's':
            return slice_(v, p[1], p[2])
        raise Unmodelled(p)

    def write_val(self, v, path, x):
        if not path:
            return x
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            key, var, n = p[3], p[1], p[4]

            def f(v):
                if v.op == 'agg' and v.args[1] == var:
                    fs = list(v.args[2])
                else:
                    fs = [fld(v, var, i) for i in range(n)]
                fs[p[2]] = self.write_val(fs[p[2]], rest, x)
                return agg(key, var, fs)
            if v.op == 'ite':
                r = None
                for g, l in leaves(v):
                    y = f(l)
                    r = y if r is None else ite(g, y, r)
                return r
            return f(v)
        if p[0] == 'i':
            return vset(v, p[1], self.write_val(at(v, p[1]), rest, x) if rest else x)
        if p[0] == 'k':
            return mset(v, p[1], self.write_val(mget(v, p[1]), rest, x) if rest else x)
        if p[0] == 's':
            sub_ = slice_(v, p[1], p[2])
            return cat(slice_(v, mk('k', 0), p[1]), self.write_val(sub_, rest, x), slice_(v, p[2], None))
        raise Unmodelled(p)

    def write(self, st, r, path, x):
        if path:
            v = st.mem.get(r)
            if v is None:
                v = mk('deref', r.args[0]) if r.op == 'rootd' else mk('undef', r)
            x = self.write_val(v, path, x)
        st.mem[r] = x

    def load(self, st, v):
        """value behind a reference value (identity on plain values)"""
        if v.op == 'ref':
            return self.load(st, self.read(st, v.args[0], v.args[1])) if False else self.read(st, v.args[0], v.args[1])
        if v.op == 'ite' and any(l.op == 'ref' for _, l in leaves(v)):
            return lift('load%d' % id(st), lambda l: self.read(st, l.args[0], l.args[1]) if l.op == 'ref' else l, v) if False else self._load_ite(st, v)
        return v

    def _load_ite(self, st, v):
        r = None
        for g, l in leaves(v):
            x = self.read(st, l.args[0], l.args[1]) if l.op == 'ref' else l
            r = x if r is None else ite(g, x, r)
        return restrict(r, st.pc)

    def deep(self, st, v):
        for _ in range(6):
            w = self.load(st, v)
            if w is v:
                return v
            v = w
        return v

    def store(self, st, ref, x, fr=None, e=None):
        if ref.op == 'ref':
            # a reference stored behind a reference: follow
            cur = st.mem.get(ref.args[0])
            if not ref.args[1] and cur is not None and cur.op == 'ref' and x.op != 'ref':
                return self.store(st, cur, x, fr, e)
            self.write(st, ref.args[0], ref.args[1], x)
            if ref.args[0] in self.lost and fr is not None and e is not None:
                self.unknown('assign', fr, e)
                v = self.lost[ref.args[0]]
                self.event('wstore', st, fr, e, v=mk('part', v, ref.args[1]) if ref.args[1] else v, val=x)
        elif ref.op == 'ite':
            for g, l in leaves(ref):
                if l.op == 'ref':
                    old = self.read(st, l.args[0], l.args[1])
                    self.write(st, l.args[0], l.args[1], ite(g, x, old))
                else:
                    self.unknown('store', fr, e)
        else:
            # opaque pointer
            self.write(st, mk('rootd', ref), (), x)
            if ref.op == 'fld' and fr is not None and e is not None:
                self.unknown('assign', fr, e)
                self.event('wstore', st, fr, e, v=ref, val=x)

    def mref(self, r, path=()):
        return mk('ref', r, tuple(path))

    def temp(self, st, fr, e, v):
        r = root(fr.id, 'tmp', id(e))
        st.mem[r] = v
        return r

    # ------------------------------------------------------------ joins
    def merge(self, items):
        """items: [(st, val)] -> (st, val), skipping dead ones"""
        items = [(s, v) for s, v in items if not s.dead()]
        if not items:
            return None
        s, v = items[-1]
        if len(items) == 1:
            return s, v
        for s2, v2 in reversed(items[:-1]):
            pc = OR(s.pc, s2.pc)
            g = restrict(s2.pc, pc)
            if g is TRUE or g is FALSE:
                g = s2.pc
            mem = dict(s.mem)
            for r, x in s2.mem.items():
                y = mem.get(r)
                if y is None:
                    mem[r] = x
                elif y is not x:
                    mem[r] = restrict(ite(g, x, y), pc)
            if v is not v2:
                if v is None:
                    v = v2
                elif v2 is not None:
                    v = restrict(ite(g, v2, v), pc)
            s = St(mem, pc)
        return s, v

    def assign_state(self, st, new):
        if new is None:
            st.pc = FALSE
            return None
        s, v = new
        st.mem, st.pc = s.mem, s.pc
        return v

    def branch(self, st, c, f_then, f_else):
        c = restrict(atom(c), st.pc)
        if c is TRUE:
            return f_then(st)
        if c is FALSE:
            return f_else(st)
        a, b = st.copy(), st.copy()
        a.pc = AND(st.pc, c)
        b.pc = AND(st.pc, NOT(c))
        va = f_then(a) if not a.dead() else None
        vb = f_else(b) if not b.dead() else None
        return self.assign_state(st, self.merge([(a, va), (b, vb)])) or UNIT

    def case(self, st, v, n, hs):
        """hs[i](st, payload function) per variant i"""
        items = []
        rest = st.pc
        for i in range(n):
            g = restrict(isvar(v, i, n), st.pc)
            if g is FALSE:
                continue
            s = st.copy()
            s.pc = AND(st.pc, g)
            if s.dead():
                continue
            w = restrict(v, s.pc)
            items.append((s, hs[i](s, lambda k=0, i=i, w=w: fld(w, i, k))))
        return self.assign_state(st, self.merge(items)) or UNIT

    def jump(self, key, st, val=None):
        if st.dead():
            return UNIT
        self.pend.setdefault(key, []).append((St(dict(st.mem), st.pc), val))
        st.pc = FALSE
        return UNIT

    def land(self, key, st, val=None):
        """join the jumps to key with the normal state"""
        items = self.pend.pop(key, [])
        r = self.merge([(st.copy(), val)] + items)
        return self.assign_state(st, r)

    def panic(self, st, fr, e, why):
        if st.dead():
            return UNIT
        self.event('panic', st, fr, e, why=why)
        st.pc = FALSE
        return UNIT

    # ------------------------------------------------------------ calls
    def run_body(self, h, args, st, fid, parent, args_pre=None):
        body = self.p.bodies[h]
        fr = Frame(fid, body, parent)
        self.callstack.append(h)
        saved = self.labels
        self.labels = []
        try:
            for p, a in zip(body['params'], args):
                if p['pat'] is not None:
                    self.bind_pat(p['pat'], a, st, fr)
            v = self.eval(body['body'], st, fr)
        finally:
            self.callstack.pop()
            self.labels = saved
        early = bool(self.pend.get(('ret', fid)))
        v = self.land(('ret', fid), st, v)
        if not early and v is not None and v.op == 'ite' and not st.dead():
            from empties import settle, SHORTCUTS
            if find(v, lambda x: x.op in SHORTCUTS):
                v = settle(v)
        if early and v is not None and not st.dead():
            from empties import settle
            v = settle(v)
            for k, x in st.mem.items():
                if x.op == 'ite':
                    st.mem[k] = settle(x)
        # forget the frame's variables unless they are still referenced
        if v is not None and not st.dead():
            live = [v]
            if parent is not None:
                keep = set()
                for x in subterms(v):
                    if x.op == 'root' and x.args[0] == fid:
                        keep.add(x)
                    if x.op == 'agg' and x.args[0] == 'clos' and x.args[1][1] == fid:
                        keep = None
                        break
                if keep is not None:
                    ents = [r for r in st.mem if r.op == 'root' and r.args[0] == fid and r not in keep]
                    if keep:
                        ents = []
                    for r in ents:
                        del st.mem[r]
        return v if v is not None else UNIT

    def call_def(self, h, args, st, fr, e, callee=None):
        """call a local function body"""
        d = self.p.defs[h]
        depth = self.callstack.count(h)
        fid = f'{fr.id}/{id(e) if e is not None else "x"}.{h[-4:]}'
        if len(fid) > 400:
            fid = 'H%d' % hash(fid)
        if depth >= 2 or len(self.callstack) > 60:
            if e is not None and isinstance(e.get('ty'), int) and fr.crate.types[e['ty']].get('k') in ('float', 'int', 'uint', 'bool') and \
                    not any(a.op in ('agg', 'unk') or x.op in ('ref', 'fn', 'cb') for a in args for x in subterms(a)):
                # a number made of numbers
                t = mk('call', 'recursive ' + d['path'], *args)
                self.event('call', st, fr, e, name='recursive ' + d['path'], args=list(args), raw=list(args), ret=t)
                return atom(t) if fr.crate.types[e['ty']].get('k') == 'bool' else t
            return self.opaque_call('recursive ' + d['path'], args, st, fr, e, unk=True)
        return self.run_body(h, args, st, fid, fr)

    def opaque_call(self, name, args, st, fr, e, unk=False, extra=()):
        vals = []
        for a in args:
            vals.append(self.deep(st, a) if a.op == 'ref' or a.op == 'ite' else a)
        t = mk('unk', name, *vals) if unk else mk('call', name, *vals)
        if unk:
            # 'soft': code outside the crate that is handed plain values only; everything it can change is known
            soft = unk == 'soft' and not any(x.op == 'ref' or x.op == 'agg' and x.args[0] == 'clos' or x.op in ('fn', 'cb') for v in vals for x in subterms(v))
            self.unk.append((name, self.where(fr, e), 'soft' if soft else 'hard'))
        self.event('call', st, fr, e, name=name, args=vals, raw=list(args), ret=t)
        for i, a in enumerate(args):
            for l in [l for _, l in leaves(a)]:
                if l.op == 'ref':
                    self.store(st, l, mk('unk' if unk else 'eff', name, i, *vals))
        return t

    def call_value(self, f, args, st, fr, e):
        f = self.deep(st, f)
        if f.op == 'agg' and f.args[0] == 'clos':
            h, env = f.args[1]
            if h not in self.p.bodies:
                return self.opaque_call('closure', args, st, fr, e, unk=True)
            body = self.p.bodies[h]
            fid = f'{fr.id}/{id(e)}.c{h[-4:]}'
            if self.callstack.count(h) >= 2:
                return self.opaque_call('recursive closure', args, st, fr, e, unk=True)
            nf = Frame(fid, body, fr)
            nf.id = fid
            nf.env = env
            self.callstack.append(h)
            saved = self.labels
            self.labels = []
            try:
                ps = body['params']
                # the first parameter is the closure itself
                ps = ps[len(ps) - len(args):] if len(ps) >= len(args) else ps
                if len(body['params']) - 1 > len(args) and len(args) == 1:
                    ps = body['params'][1:]
                    args = [fld(args[0], 0, i) for i in range(len(ps))]
                for p, a in zip(ps, args):
                    if p['pat'] is not None:
                        self.bind_pat(p['pat'], a, st, nf)
                v = self.eval(body['body'], st, nf)
            finally:
                self.callstack.pop()
                self.labels = saved
            v = self.land(('ret', fid), st, v)
            return v if v is not None else UNIT
        if f.op == 'fn':
            return self.call_item(f.args[0], f.args[1], args, st, fr, e, f.args[2])
        if f.op == 'cb':
            return CALLBACKS[f.args[0]](args, st)
        if f.op == 'konst':
            return f.args[0]
        if f.op == 'thunk':
            return self.call_value(f.args[0], [], st, fr, e)
        if f.op == 'pappm':
            return self.call_value(f.args[0], [f.args[1], *args], st, fr, e)
        if f.op == 'papp':
            # a function called with a state of its own before the arguments
            r = root(fr.id, 'state', id(e))
            st.mem[r] = f.args[1]
            return self.call_value(f.args[0], [self.mref(r), *args], st, fr, e)
        if f.op == 'ite':
            g = [(g, l) for g, l in leaves(f, st.pc)]
            items = []
            for c, l in g:
                s = st.copy()
                s.pc = AND(st.pc, c)
                if not s.dead():
                    items.append((s, self.call_value(l, args, s, fr, e)))
            return self.assign_state(st, self.merge(items)) or UNIT
        vals = [self.deep(st, a) for a in args]
        t = mk('app', f, *vals)
        for a in args:
            if a.op == 'ref':
                self.store(st, a, mk('unk', 'app-effect', f))
        return t

    def call_item(self, h, rh, args, st, fr, e, targs=()):
        """call a resolved item; h: as written, rh: resolved instance"""
        p = self.p
        d = p.defs[h]
        rd = p.defs.get(rh) if rh else None
        path = d['path']
        if 'ctor_adt' in d:
            return agg(self.adtkey(d['ctor_adt']), d['ctor_variant'], args)
        # anchors first (by resolved path, then declared path)
        for q in ((rd['path'], rd) if rd else None, (path, d)):
            if q and q[0] in self.anchors and (q[1]['local'] or True):
                r = self.anchors[q[0]](self, args, st, fr, e)
                if r is not NotImplemented:
                    return r
        key = simp(path)
        if key in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
            r = self.models[key](self, st, args, fr, e, targs)
            if r is not NotImplemented:
                return r
        trait = d.get('trait')
        if trait and rd is None or (rd is not None and rh not in p.bodies and trait and not rd.get('impl_trait')):
            # an unresolved trait method: try a unique local impl by the self type
            lh = self.resolve_trait(h, args, targs, st, fr)
            if lh:
                rh, rd = lh, p.defs[lh]
        derived = rd is not None and rd.get('derived')
        tgt = rh if rh in p.bodies else (h if h in p.bodies and not (trait and rd is None) else None)
        if tgt is not None and not (derived and d.get('name') in ('clone', 'eq', 'fmt', 'default', 'partial_cmp', 'cmp', 'hash', 'ne')) and not (key == 'Clone::clone'):
            td = p.defs[tgt]
            if key.startswith('Iterator::') and args and self.is_desc(args[0], st):
                # an iterator of ours that an anchor describes by what it yields
                r = self.models[key](self, st, args, fr, e, targs) if key in self.models else NotImplemented
                if r is not NotImplemented:
                    return r
            if not self.noinline(td['path']):
                return self.call_def(tgt, args, st, fr, e)
            return self.opaque_call(td['path'], args, st, fr, e)
        m = self.models.get(key)
        if m is None and trait:
            m = self.models.get('*::' + d.get('name', ''))
        if m is not None:
            if key.startswith(('DashMap::', 'DashSet::', 'AtomicU', 'AtomicI', 'Atomic::')) and args:
                self.event('shared', st, fr, e, op=key.split('::')[1], ref=args[0])
            r = m(self, st, args, fr, e, targs)
            if r is not NotImplemented:
                return r
        return self.opaque_call(key, args, st, fr, e, unk=True if d['local'] else 'soft')

    def is_desc(self, v, st):
        if v.op == 'ref':
            v = self.load(st, v)
        return v.op == 'agg' and v.args[0] == 'iter'

    def resolve_trait(self, h, args, targs, st, fr):
        c = self.p.impl_items.get(h)
        if not c or not targs:
            return None
        st_ = fr.crate.types[targs[0]] if isinstance(targs[0], int) else None
        if st_ is None:
            return None
        for ty, bh in c:
            if ty['s'] == st_['s']:
                return bh
        return None

    # ------------------------------------------------------------ patterns
    def bind(self, var, v, st, fr):
        st.mem[root(fr.id, var)] = v

    def bind_pat(self, p, v, st, fr):
        """irrefutable binding"""
        c = self.match(p, v, st, fr, None)
        return c

    def match(self, p, v, st, fr, place):
        """binds the variables of p (assuming it matches) and returns the diagram
        under which v matches. place: a ref term for v's location or None."""
        k = p['k']
        if k == 'Wild':
            return TRUE
        if k == 'Bind':
            ty = fr.crate.types[p['ty']]
            if p['by'] == 'mut' and place is not None:
                x = place
            elif p['by'] == 'ref' and place is not None and any(w in ty['s'] for w in IMUT):
                x = place
            else:
                x = self.load_place(v, place, st)
            c = TRUE
            if p['sub']:
                c = self.match(p['sub'], v, st, fr, place)
            self.bind(p['var'], self.note(x, ty), st, fr)
            return c
        if k in ('Deref', 'DerefPat'):
            x = self.load_place(v, place, st)
            if x.op == 'ref' or (x.op == 'ite' and any(l.op == 'ref' for _, l in leaves(x))):
                return self.match(p['sub'], None, st, fr, x)
            return self.match(p['sub'], x, st, fr, None)
        if k in ('Variant', 'Leaf'):
            x = self.load_place(v, place, st)
            ty = fr.crate.types[p['ty']]
            var = p['v'] if k == 'Variant' else 0
            if k == 'Variant':
                a = self.p.adts[p['adt']]
                c = isvar(x, var, a['n'])
                key, nf = self.adtkey(p['adt']), len(a['variants'][var]['fields'])
            else:
                c = TRUE
                if ty['k'] == 'tuple':
                    key, nf = 'tup', len(ty['args'])
                elif ty['k'] == 'adt':
                    key, nf = self.adtkey(ty['def']), len(self.p.adts[ty['def']]['variants'][0]['fields'])
                else:
                    key, nf = 'tup', len(p['sub'])
            for i, sp in p['sub']:
                pl = self.proj(place, ('f', var, i, key, nf)) if place is not None else None
                c2 = self.match(sp, fld(x, var, i), st, fr, pl)
                c = AND(c, c2)
            return c
        if k == 'Const':
            x = self.load_place(v, place, st)
            x = self.deep(st, x)
            return eq(self.note(x, fr.crate.types[p['ty']]), self.lit(p['v']))
        if k == 'Range':
            x = self.load_place(v, place, st)
            c = TRUE
            fl = fr.crate.types[p['ty']]['k'] == 'float'
            if p['lo'] is not None:
                lo = self.lit(p['lo'])
                c = AND(c, fle(lo, x) if fl else le(lo, x))
            if p['hi'] is not None:
                hi = self.lit(p['hi'])
                c = AND(c, (fle(x, hi) if p['incl'] else flt(x, hi)) if fl else (le(x, hi) if p['incl'] else lt(x, hi)))
            return c
        if k == 'Or':
            cs = []
            outs = []
            base = dict(st.mem)
            for q in p['pats']:
                s = St(dict(base), st.pc)
                c = self.match(q, v, s, fr, place)
                outs.append((c, s))
            tot = FALSE
            mem = None
            for c, s in reversed(outs):
                if mem is None:
                    mem = s.mem
                else:
                    for r, x in s.mem.items():
                        y = mem.get(r)
                        if y is not x:
                            mem[r] = x if y is None else ite(c, x, y)
                tot = OR(c, tot)
            st.mem = mem
            return tot
        if k == 'Slice':
            x = self.deep(st, self.load_place(v, place, st))
            n = seqlen(x)
            need = len(p['pre']) + len(p['suf'])
            c = le(mk('k', need), n) if p['mid'] else ieq(n, mk('k', need))
            for i, q in enumerate(p['pre']):
                c = AND(c, self.match(q, at(x, mk('k', i)), st, fr, self.proj(place, ('i', mk('k', i))) if place is not None else None))
            for i, q in enumerate(p['suf']):
                ix = sub(n, mk('k', len(p['suf']) - i))
                c = AND(c, self.match(q, at(x, ix), st, fr, None))
            if p['mid']:
                c = AND(c, self.match(p['mid'], slice_(x, mk('k', len(p['pre'])), sub(n, mk('k', len(p['suf'])))), st, fr, None))
            return c
        raise Unmodelled('pattern ' + k)

    def load_place(self, v, place, st):
        if v is not None and place is None:
            return v
        if place is not None:
            return self.load(st, place)
        return v

    def proj(self, ref, step):
        if ref.op == 'ref':
            return mk('ref', ref.args[0], ref.args[1] + (step,))
        if ref.op == 'ite':
            r = None
            for g, l in leaves(ref):
                x = self.proj(l, step)
                r = x if r is None else ite(g, x, r)
            return r
        return mk('ref', mk('rootd', ref), (step,))

    # ------------------------------------------------------------ expressions
    def lit(self, v):
        if v is None:
            return mk('unk', 'const')
        t, x = v['t'], v['v']
        if t == 'int':
            return mk('k', int(x))
        if t == 'bool':
            return TRUE if x else FALSE
        if t == 'float':
            return KF(float(x.replace('_', '')))
        if t == 'str':
            return KB(x.encode())
        if t == 'bytes':
            return KB(bytes(x))
        if t == 'char':
            return mk('kc', int(x))
        return mk('unk', 'lit', str(x))

    def eval(self, e, st, fr):
        self.steps += 1
        if st.dead():
            return UNIT
        mac = e.get('mac')
        if mac and mac.startswith('log::'):
            return UNIT
        f = getattr(self, 'e_' + e['k'], None)
        if f is None:
            return self.unknown('expr ' + e['k'], fr, e)
        v = f(e, st, fr)
        if v is None:
            v = UNIT
        if v.op not in ('k', 'agg', 'ref') and 'ty' in e:
            v = self.note(v, fr.crate.types[e['ty']])
        return v

    # places: returns (root,path) or None
    def place(self, e, st, fr):
        k = e['k']
        if k == 'Var':
            return self.mref(root(fr.id, e['var'])) if root(fr.id, e['var']) in st.mem else self.varref(e, st, fr)
        if k == 'Upvar':
            return self.varref(e, st, fr)
        if k == 'Field':
            b = self.place(e['a'], st, fr)
            if b is None:
                return None
            return self.proj(b, self.fstep(e, fr))
        if k == 'Index':
            b = self.place(e['a'], st, fr)
            i = self.eval(e['i'], st, fr)
            if b is None:
                return None
            v = self.load(st, b)
            self.event('index', st, fr, e, v=v, i=i)
            return self.proj(b, ('i', i))
        if k == 'Deref':
            v = self.eval(e['a'], st, fr)
            return self.as_ref(v)
        if k == 'Block' and not e['b']['stmts'] and e['b']['e']:
            return self.place(e['b']['e'], st, fr)
        return None

    def as_ref(self, v):
        if v.op == 'ref':
            return v
        if v.op == 'ite' and all(l.op == 'ref' for _, l in leaves(v)):
            return v
        if self.is_ptr(v):
            return self.mref(mk('rootd', v))
        return None

    def is_ptr(self, v):
        return v.op == 'sym' and v.args and v.args[0] == 'phi' and v in PTRS

    def varref(self, e, st, fr):
        f = fr
        # closures share the variable ids of the function they are written in
        r = root(f.id, e['var'])
        if r in st.mem:
            return self.mref(r)
        env = getattr(f, 'env', None)
        for fid in (env or ()):
            r = root(fid, e['var'])
            if r in st.mem:
                return self.mref(r)
        return self.mref(root(fr.id, e['var']))

    def fstep(self, e, fr):
        t = self.tyof(fr, e['a'])
        if t['k'] == 'tuple':
            return ('f', 0, e['f'], 'tup', len(t['args']))
        if t['k'] == 'adt':
            a = self.p.adts[t['def']]
            v = e['v']
            return ('f', v, e['f'], self.adtkey(t['def']), len(a['variants'][v]['fields']))
        return ('f', 0, e['f'], t['s'], e['f'] + 1)

    def e_Var(self, e, st, fr):
        r = self.place(e, st, fr)
        return self.load(st, r)
    e_Upvar = e_Var

    def e_Field(self, e, st, fr):
        p = self.place(e, st, fr)
        if p is not None:
            return self.load(st, p)
        v = self.deep(st, self.eval(e['a'], st, fr))
        return fld(v, e['v'], e['f'])

    def e_Index(self, e, st, fr):
        p = self.place(e, st, fr)
        if p is not None:
            return self.load(st, p)
        v = self.deep(st, self.eval(e['a'], st, fr))
        i = self.eval(e['i'], st, fr)
        self.event('index', st, fr, e, v=v, i=i)
        return at(v, i)

    def e_Deref(self, e, st, fr):
        v = self.eval(e['a'], st, fr)
        r = self.as_ref(v)
        if r is not None:
            return self.load(st, r)
        return v

    def e_Borrow(self, e, st, fr):
        t = self.tyof(fr, e['a'])
        need = e['mut'] or any(w in t['s'] for w in IMUT)
        if not need:
            return self.eval(e['a'], st, fr)
        p = self.place(e['a'], st, fr)
        if p is not None:
            return p
        v = self.eval(e['a'], st, fr)
        if v.op == 'ref':
            return v
        if st.dead():
            return UNIT
        r = self.temp(st, fr, e, v)
        b = v
        while b.op == 'fld':
            b = b.args[0]
        if e['mut'] and e['a']['k'] in ('Field', 'Deref', 'Index') and (b.op != 'sym' or b in PTRS):
            # a place inside a value this analysis does not locate: what is
            # written there is recorded by `store`
            self.lost[r] = v
        return self.mref(r)

    def e_Lit(self, e, st, fr):
        return self.lit(e['v'])

    def e_Zst(self, e, st, fr):
        c = e['callee']
        return self.fnval(c)

    def fnval(self, c):
        if c is None:
            return UNIT
        return mk('fn', c['def'], c['res']['def'] if c['res'] else None, tuple(c['args']))

    def e_Const(self, e, st, fr):
        if e.get('v') is not None:
            return self.lit(e['v'])
        h = e['def']
        if h in self.p.bodies:
            if self.big_const(h):
                return mk('const', self.p.defs[h]['path'])
            return self.run_body(h, [], st, f'const{h}', fr)
        t = self.tyof(fr, e)
        p = self.p.defs[h]['path']
        if p.endswith('NEG_INFINITY'):
            return KF(float('-inf'))
        if p.endswith('INFINITY'):
            return KF(float('inf'))
        return mk('const', p)

    def e_Static(self, e, st, fr):
        h = e['def']
        self.event('static', st, fr, e, name=self.p.defs[h]['path'], ty=self.tyof(fr, e)['s'])
        if h in self.p.bodies and not self.big_const(h):
            return self.run_body(h, [], st, f'const{h}', fr)
        return mk('const', self.p.defs[h]['path'])

    def big_const(self, h):
        if self.expand_consts:
            return False
        x = self.p.bodies[h]['body']
        while x['k'] in ('Borrow', 'Coerce', 'Deref', 'Block', 'Cast'):
            x = x['a'] if 'a' in x else x['b']['e']
            if x is None:
                return False
        return x['k'] == 'Array' and len(x['args']) > 6

    def e_Never(self, e, st, fr):
        self.eval(e['a'], st, fr)
        return UNIT

    def e_Cast(self, e, st, fr):
        v = self.eval(e['a'], st, fr)
        s, d = self.tyof(fr, e['a']), self.tyof(fr, e)
        return self.cast(v, s, d, fr, e)

    def cast(self, v, s, d, fr, e):
        if s['s'] == d['s']:
            return v
        sk, dk = s['k'], d['k']
        ints = ('uint', 'int')
        if sk in ints and dk in ints:
            w = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}
            a, b = w[s['s']], w[d['s']]
            # token ids and lengths fit 32 bits (documented limit of TokenID)
            if b >= 32 and (sk == 'uint') and (dk == 'uint' or b > 32):
                return v
            if sk == 'int' and dk == 'int' and b >= a:
                return v
            if v.op == 'k' and (0 <= v.args[0] < 2 ** (b - 1)):
                return v
            if v.op == 'at' and v.args[0].op == 'I256':
                return v
            if b >= a and dk == sk:
                return v
            return lift(('cast', d['s']), lambda x: x if x.op == 'k' and 0 <= x.args[0] < 2 ** (b - 1) else mk('cast', d['s'], x), v)
        if sk in ints and dk == 'float':
            return single(i2f(v)) if d['s'] == 'f32' else i2f(v)
        if sk == 'float' and dk in ints:
            v = lift(('f2i', d['s']), lambda x: mk('k', int(float(x.args[0]))) if x.op == 'kf' and abs(float(x.args[0])) < 2**31 else TT.declare_nonneg(mk('f2i', x)), v)
            return lift(('cast', d['s']), lambda x: x if x.op == 'k' else mk('cast', d['s'], x), v) if d['s'] in ('u8', 'i8', 'u16', 'i16') else v
        if sk == 'float' and dk == 'float':
            return v if d['s'] == 'f64' else single(v)
        if sk == 'bool' and dk in ints:
            return ite(v, mk('k', 1), mk('k', 0))
        if sk == 'char' or dk == 'char':
            return mk('cast', d['s'], v)
        if sk == 'adt' and dk in ints:
            a = self.p.adt_by_path.get(s.get('path') or s['s'])
            if a is None or not a.get('enum', True):
                return self.unknown('cast of ' + s['s'], fr, e, v)
            n = a['n']
            out = mk('k', int(a['variants'][n - 1].get('disc', n - 1)))
            for i in range(n - 2, -1, -1):
                out = ite(TT.isvar(v, i, n), mk('k', int(a['variants'][i].get('disc', i))), out)
            return out
        return v

    def e_Coerce(self, e, st, fr):
        return self.eval(e['a'], st, fr)

    def numk(self, fr, e):
        t = self.strip(fr.crate, self.tyof(fr, e))
        return t['k']

    def e_Binary(self, e, st, fr):
        a = self.eval(e['a'], st, fr)
        b = self.eval(e['b'], st, fr)
        return self.binop(e['op'], a, b, self.numk(fr, e['a']), st, fr, e)

    def binop(self, op, a, b, k, st, fr, e):
        a, b = self.deep(st, a), self.deep(st, b)
        if k == 'float':
            f = {'Add': fadd, 'Sub': fsub, 'Mul': fmul, 'Div': fdiv, 'Lt': flt, 'Le': fle,
                 'Gt': lambda x, y: flt(y, x), 'Ge': lambda x, y: fle(y, x), 'Eq': feq, 'Ne': lambda x, y: NOT(feq(x, y))}.get(op)
        elif k in ('uint', 'int'):
            if op == 'Sub' and k == 'uint':
                self.event('sub', st, fr, e, a=a, b=b)
            if op in ('Div', 'Rem'):
                self.event('div', st, fr, e, a=a, b=b)
            f = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': idiv, 'Rem': irem, 'Lt': lt, 'Le': le,
                 'Gt': lambda x, y: lt(y, x), 'Ge': lambda x, y: le(y, x), 'Eq': ieq, 'Ne': lambda x, y: NOT(ieq(x, y))}.get(op)
        elif k == 'bool':
            f = {'Eq': IFF, 'Ne': lambda x, y: NOT(IFF(x, y)), 'BitAnd': AND, 'BitOr': OR, 'BitXor': lambda x, y: NOT(IFF(x, y))}.get(op)
        else:
            f = {'Eq': eq, 'Ne': lambda x, y: NOT(eq(x, y))}.get(op)
            if f is None and k == 'char':
                f = {'Lt': lambda x, y: atom(mk('chlt', x, y)), 'Gt': lambda x, y: atom(mk('chlt', y, x)),
                     'Le': lambda x, y: NOT(atom(mk('chlt', y, x))), 'Ge': lambda x, y: NOT(atom(mk('chlt', x, y)))}.get(op)
        if f is None and k in ('uint', 'int') and a.op == 'k' and b.op == 'k' and all(isinstance(x.args[0], int) and x.args[0] >= 0 for x in (a, b)):
            x, y = a.args[0], b.args[0]
            v = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': x << y if y < 64 else None, 'Shr': x >> y if y < 64 else None}.get(op)
            if v is not None and v < 1 << 31:
                return mk('k', v)
        if f is None and k == 'uint' and b.op == 'k' and isinstance(b.args[0], int):
            y = b.args[0]
            if op == 'Shr' and 0 <= y < 32:
                return idiv(a, mk('k', 1 << y))
            if op == 'BitAnd' and y >= 0 and y & (y + 1) == 0:
                return irem(a, mk('k', y + 1))
        if f is None:
            return mk('op', op, a, b)
        if k == 'float' and op in ('Add', 'Sub', 'Mul', 'Div') and isinstance(e.get('a'), dict) and self.strip(fr.crate, self.tyof(fr, e['a']))['s'] == 'f32':
            return single(f(a, b))
        return f(a, b)

    def e_Logical(self, e, st, fr):
        a = self.eval(e['a'], st, fr)
        if e['op'] == 'And':
            return self.branch(st, a, lambda s: self.eval(e['b'], s, fr), lambda s: FALSE)
        return self.branch(st, a, lambda s: TRUE, lambda s: self.eval(e['b'], s, fr))

    def e_Unary(self, e, st, fr):
        a = self.deep(st, self.eval(e['a'], st, fr))
        k = self.numk(fr, e['a'])
        if e['op'] == 'Not':
            return NOT(atom(a)) if k == 'bool' else mk('op', 'Not', a)
        if e['op'] == 'Neg':
            return fneg(a) if k == 'float' else sub(mk('k', 0), a)
        return mk('op', e['op'], a)

    def e_Array(self, e, st, fr):
        return cat(*[one(self.eval(x, st, fr)) for x in e['args']])

    def e_Tuple(self, e, st, fr):
        return tup(*[self.eval(x, st, fr) for x in e['args']])

    def e_Repeat(self, e, st, fr):
        v = self.eval(e['v'], st, fr)
        n = e.get('n')
        try:
            n = int(n)
        except (TypeError, ValueError):
            return mk('unk', 'repeat', v)
        return mk('rep', v, mk('k', n))

    def e_Adt(self, e, st, fr):
        a = self.p.adts[e['adt']]
        n = len(a['variants'][e['v']]['fields'])
        fs = [None] * n
        for i, x in e['fields']:
            fs[i] = self.eval(x, st, fr)
        if e['base'] is not None:
            b = self.eval(e['base'], st, fr) if isinstance(e['base'], dict) else mk('unk', 'base')
            for i in range(n):
                if fs[i] is None:
                    fs[i] = fld(b, e['v'], i)
        if st.dead():
            return UNIT
        fs = [mk('undef') if f is None else f for f in fs]
        return agg(self.adtkey(e['adt']), e['v'], fs)

    def e_Closure(self, e, st, fr):
        env = [fr.id] + list(getattr(fr, 'env', ()) or ())
        return mk('agg', 'clos', (e['def'], tuple(env)), ())

    def e_Block(self, e, st, fr):
        b = e['b']
        lab = b.get('label')
        if lab is not None:
            key = ('brk', fr.id, lab)
        for s in b['stmts']:
            if st.dead():
                break
            if s['k'] == 'Expr':
                self.eval(s['e'], st, fr)
            else:
                self.let(s, st, fr)
        v = UNIT
        if not st.dead() and b['e'] is not None:
            v = self.eval(b['e'], st, fr)
        if lab is not None:
            v = self.land(key, st, v) or UNIT
        return v

    def scrut(self, e, st, fr):
        """(value, place) of a scrutinee"""
        p = self.place(e, st, fr)
        if p is not None:
            return None, p
        return self.eval(e, st, fr), None

    def let(self, s, st, fr):
        if s['init'] is None:
            return
        need_place = has_mut_bind(s['pat'])
        if need_place:
            v, p = self.scrut(s['init'], st, fr)
        else:
            v, p = self.eval(s['init'], st, fr), None
        if st.dead():
            return
        if s['else'] is not None:
            base = st.copy()
            c = self.match(s['pat'], v, st, fr, p)
            c = restrict(c, st.pc)
            els = base
            els.pc = AND(base.pc, NOT(c))
            st.pc = AND(st.pc, c)
            if not els.dead():
                self.e_Block({'b': s['else'], 'k': 'Block'}, els, fr)
            return
        self.match(s['pat'], v, st, fr, p)

    def e_Let(self, e, st, fr):
        need = has_mut_bind(e['pat'])
        if need:
            v, p = self.scrut(e['e'], st, fr)
        else:
            v, p = self.eval(e['e'], st, fr), None
        if st.dead():
            return UNIT
        return self.match(e['pat'], v, st, fr, p)

    def e_If(self, e, st, fr):
        c = self.eval(e['c'], st, fr)
        if st.dead():
            return UNIT
        return self.branch(st, c, lambda s: self.eval(e['t'], s, fr),
                           lambda s: self.eval(e['e'], s, fr) if e['e'] is not None else UNIT)

    def e_Match(self, e, st, fr):
        if e['src'] == 'ForLoopDesugar':
            return self.for_loop(e, st, fr)
        need = any(has_mut_bind(a['pat']) for a in e['arms'])
        if need:
            v, p = self.scrut(e['s'], st, fr)
        else:
            v, p = self.eval(e['s'], st, fr), None
        if st.dead():
            return UNIT
        items = []
        cur = st
        for a in e['arms']:
            if cur.dead():
                break
            s = cur.copy()
            c = self.match(a['pat'], v, s, fr, p)
            c = restrict(atom(c), cur.pc)
            s.pc = AND(cur.pc, c)
            nxt = cur.copy()
            nxt.pc = AND(cur.pc, NOT(c))
            if not s.dead():
                if a['guard'] is not None:
                    g = self.eval(a['guard'], s, fr)
                    g = restrict(atom(g), s.pc)
                    miss = s.copy()
                    miss.pc = AND(s.pc, NOT(g))
                    s.pc = AND(s.pc, g)
                    r = self.merge([(nxt, None), (miss, None)])
                    nxt = r[0] if r else St({}, FALSE)
                if not s.dead():
                    items.append((s, self.eval(a['body'], s, fr)))
            cur = nxt
        return self.assign_state(st, self.merge(items)) or UNIT

    def e_Assign(self, e, st, fr):
        v = self.eval(e['b'], st, fr)
        p = self.place(e['a'], st, fr)
        if st.dead():
            return UNIT
        if p is None:
            v0 = self.eval(e['a'], st, fr)
            self.unknown('assign', fr, e)
            self.event('wstore', st, fr, e, v=v0, val=v)
            return UNIT
        if e['a']['k'] in ('Var', 'Upvar'):
            self.write(st, p.args[0], p.args[1], v)
        else:
            self.assign_to(st, p, v, fr, e)
        return UNIT

    def assign_to(self, st, p, v, fr, e):
        if p.op == 'ref':
            self.write(st, p.args[0], p.args[1], v)
        else:
            self.store(st, p, v, fr, e)

    def e_AssignOp(self, e, st, fr):
        b = self.eval(e['b'], st, fr)
        p = self.place(e['a'], st, fr)
        if st.dead():
            return UNIT
        if p is None:
            self.unknown('assignop', fr, e)
            return UNIT
        a = self.load(st, p)
        a = self.note(a, self.tyof(fr, e['a']))
        op = e['op'].replace('Assign', '')
        v = self.binop(op, a, b, self.numk(fr, e['a']), st, fr, e)
        self.assign_to(st, p, v, fr, e)
        return UNIT

    def e_Return(self, e, st, fr):
        v = self.eval(e['v'], st, fr) if e['v'] is not None else UNIT
        return self.jump(('ret', fr.id), st, v)

    def e_Break(self, e, st, fr):
        v = self.eval(e['v'], st, fr) if e['v'] is not None else UNIT
        return self.jump(('brk', fr.id, self.canon_label(e['label'])), st, v)

    def e_Continue(self, e, st, fr):
        return self.jump(('cont', fr.id, self.canon_label(e['label'])), st)

    def canon_label(self, l):
        for labs, c in reversed(self.labels):
            if l in labs:
                return c
        return l

    def e_Call(self, e, st, fr):
        c = e['callee']
        if c is None:
            f = self.eval(e['fun'], st, fr)
            args = [self.eval(a, st, fr) for a in e['args']]
            if st.dead():
                return UNIT
            return self.call_value(f, args, st, fr, e)
        args = [self.eval(a, st, fr) for a in e['args']]
        if st.dead():
            return UNIT
        return self.call_item(c['def'], c['res']['def'] if c['res'] else None, args, st, fr, e, c['args'])

    # ------------------------------------------------------------ loops
    def for_loop(self, e, st, fr):
        from iters import to_iter, run_iter
        it = self.eval(e['s']['args'][0], st, fr)
        if st.dead():
            return UNIT
        it = to_iter(self, st, it, fr, e, self.tyof(fr, e['s']['args'][0]))
        loop = e['arms'][0]['body']
        while loop['k'] != 'Loop':
            loop = loop['b']['e']
        inner = loop['body']
        while inner['k'] == 'Block':
            inner = inner['b']['e'] if inner['b']['e'] is not None else inner['b']['stmts'][0]['e']
        labs = set(loop['labels'])
        canon = ('L', id(e))
        arm = [a for a in inner['arms'] if a['pat']['sub']][0]
        pat, body = arm['pat']['sub'][0][1], arm['body']
        ckey, bkey = ('cont', fr.id, canon), ('brk', fr.id, canon)

        def cb(x, s):
            self.labels.append((labs, canon))
            pl = None
            self.match(pat, x, s, fr, None)
            self.eval(body, s, fr)
            self.labels.pop()
            self.land(ckey, s, UNIT)
        run_iter(self, it, st, cb, fr, e)
        self.land(bkey, st, UNIT)
        return UNIT

    def e_Loop(self, e, st, fr):
        labs = set(e['labels'])
        canon = ('L', id(e))
        ckey, bkey = ('cont', fr.id, canon), ('brk', fr.id, canon)

        def body(j, s):
            self.labels.append((labs, canon))
            self.eval(e['body'], s, fr)
            self.labels.pop()
            self.land(ckey, s, UNIT)
        self.run_loop(('loop', fr.id, id(e)), None, st, body, fr, e, own=bkey)
        v = self.land(bkey, st, None)
        return v or UNIT

    def run_loop(self, lid, n, st, body, fr, e, raw=None, seq=None, own=None):
        import loops
        return loops.run_loop(self, lid, n, st, body, fr, e, raw, seq, own)

    # ------------------------------------------------------------ entry
    def analyse(self, body, args=None, mem=None, pc=TRUE):
        st = St(dict(mem or {}), pc)
        fr0 = Frame('E', body, None)
        if args is None:
            args = self.default_args(body, st)
        v = self.run_body(body['def'], args, st, 'E', None)
        return v, st

    def default_args(self, body, st):
        args = []
        for i, p in enumerate(body['params']):
            t = body['crate'].types[p['ty']]
            nm = pname(p['pat']) or 'a'
            s = sym('p', i, nm)
            bt = self.strip(body['crate'], t)
            if bt['k'] in ('slice', 'array') or (bt.get('path') or '').split('::')[-1] in ('Vec', 'VecDeque'):
                self.seqsyms.add(s)
            if t['k'] == 'ref' and t['mut']:
                r = root('P', i)
                st.mem[r] = s
                args.append(self.mref(r))
            elif t['k'] == 'ref' and any(w in t['s'] for w in IMUT):
                r = root('P', i)
                st.mem[r] = s
                args.append(self.mref(r))
            else:
                args.append(self.note(s, self.strip(body['crate'], t)))
        return args


PTRS = set()
CALLBACKS = {}


def single(v):
    """rounded to single precision"""
    def f(x):
        if x.op == 'kf' and struct.unpack('f', struct.pack('f', float(x.args[0])))[0] == float(x.args[0]):
            return x
        return x if x.op == 'cast' and x.args[0] == 'f32' else mk('cast', 'f32', x)
    return lift(('cast', 'f32'), f, v)


def pname(p):
    if p is None:
        return None
    if p['k'] == 'Bind':
        return p['name']
    if p['k'] in ('Deref', 'DerefPat'):
        return pname(p['sub'])
    return None


_hmb = {}


def has_mut_bind(p):
    if p is None:
        return False
    r = _hmb.get(id(p))
    if r is None:
        r = _has_mut_bind(p)
        _hmb[id(p)] = (r, p)
        return r
    return r[0]


def _has_mut_bind(p):
    k = p['k']
    if k == 'Bind':
        if p['by'] is not None:
            return True
        return has_mut_bind(p['sub']) if p['sub'] else False
    if k in ('Deref', 'DerefPat'):
        return has_mut_bind(p['sub'])
    if k in ('Variant', 'Leaf'):
        return any(has_mut_bind(s) for _, s in p['sub'])
    if k == 'Or':
        return any(has_mut_bind(s) for s in p['pats'])
    if k == 'Slice':
        return any(has_mut_bind(s) for s in p['pre'] + p['suf']) or (p['mid'] is not None and has_mut_bind(p['mid']))
    return False
