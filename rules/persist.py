"""C12 C13 C14: what is written can be read back, and nothing else."""
from lib import *
from lib import KB as _KB
from model import req, names
import loops as LP

STAGE = {
    'tokengeex::tokenizer::Tokenizer::new': lambda I, a, st, fr, e: mk('t_new', *[I.deep(st, x) for x in a]),
    'tokengeex::model::Model::from': lambda I, a, st, fr, e: mk('m_from', I.deep(st, a[0])),
}
TKN = 'tokengeex::tokenizer::Tokenizer'
SCT = 'tokengeex::ScoredToken'
CRLF, UNI, WRAP = ('tokengeex::processor::' + x for x in ('CrlfProcessor', 'UnicodeProcessor', 'ProcessorWrapper'))


def KB(s):
    return _KB(s.encode())


def kstr(t):
    return t.args[0].decode() if t.op == 'kb' else None


class Writer:
    """the fields a Serialize impl writes: [(name, value)] per case"""

    def __init__(self, cx, ty):
        self.r = cx.run(cx.method(ty, 'serialize', 'Serialize', crate=LIB), 'TRIE')
        cx.clear(self.r)
        self.self = self.r.p(0)

    def fields(self, fs, pc, row):
        out = []
        for g, x in leaves(restrict(fs, pc), pc):
            c = AND(pc, g)
            if c is FALSE:
                continue
            if x is EMPTY:
                out.append((c, row))
            elif x.op == 'one':
                n = kstr(fld(x.args[0], 0, 0))
                if n is None:
                    raise Undecided('field name is not constant')
                # a Cow is written as what it holds
                v = LP.mapop(fld(x.args[0], 0, 1), 'agg', lambda y: y.args[2][0] if str(y.args[0]).endswith('::Cow') else y)
                out.append((c, row + [(n, v)]))
            elif x.op == 'cat':
                cases = [(c, row)]
                for p in x.args:
                    cases = [y for c2, r2 in cases for y in self.fields(p, c2, r2)]
                out += cases
            else:
                raise Undecided('written field not recognised')
        return out

    def docs(self, pc=TRUE):
        """(condition, [(name, value)])"""
        out = []
        for g, l in leaves(restrict(self.r.ret, pc), pc):
            if is_ok(l) is not TRUE:
                if is_ok(l) is FALSE:
                    continue
                raise Undecided('result of writing not recognised')
            d = fld(l, 0, 0)
            if d.op != 'serdoc' or d.args[0].op != 'agg' or d.args[0].args[0] != 'serstruct':
                raise Undecided('written document not recognised')
            fs = fld(d.args[0], 0, 1)
            out += self.fields(fs, AND(pc, g), [])
        return out


class Reader:
    """a Deserialize impl: the visitor's key loop"""

    def __init__(self, cx, ty):
        b = cx.method(ty, 'deserialize', 'Deserialize', crate=LIB)
        e = cx.run(b, None)
        cs = [x for x in e.ev('call') if x['name'].startswith('Deserializer::deserialize_')]
        if len(cs) != 1:
            raise Undecided('visitor not recognised')
        v = cs[0]['args'][-1]
        if v.op != 'agg':
            raise Undecided('visitor not recognised')
        vb = cx.method(v.args[0].removeprefix('cli:'), 'visit_map', 'Visitor', crate=LIB)
        self.r = r = cx.run(vb, None, extra=STAGE, tag='stage')
        cx.clear(r)
        ls = [l for l in r.loops.values() if not l.stack]
        if len(ls) > 1:
            # the loop that asks for the next key; others work on what was read
            ls = [l for l in ls if any(d['init'] is r.p(1) for d in l.vars.values())]
        if len(ls) != 1:
            raise Undecided('key loop not recognised')
        self.L = L = ls[0]
        m = [d for d in L.vars.values() if d['init'] is r.p(1)]
        if len(m) != 1:
            raise Undecided('document cursor not recognised')
        self.M = m[0]['phi']
        self.vars = {loc: d for loc, d in L.vars.items() if d is not m[0]}
        ts = [d['next'] for d in L.vars.values()] + [L.endpc, r.ret]
        self.nk = {x for t in ts for x in find(t, lambda x: x.op == 'nk')}
        self.nv = {x for t in ts for x in find(t, lambda x: x.op == 'nv')}
        if not self.nk or any(x.args[0] is not self.M for x in self.nk) or any(x.args[0] is not mk('afterkey', self.M) for x in self.nv):
            raise Undecided('document is not read key by key')
        for l in r.loops.values():
            if l is not L and find(l.G if l.G is not None else TRUE, lambda x: x.op == 'nk'):
                raise Undecided('nested loop')

    def start(self):
        return {loc: d['init'] for loc, d in self.vars.items()}

    def _sub(self, t, vals, keyed, value):
        # atoms first: a variable is its value
        for k in self.nk:
            t = LP.replace(t, k, keyed)
        for v in self.nv:
            if value is not None:
                t = LP.replace(t, v, ok(coerce(value, v.args[1])))
        m = {}
        for loc, d in self.vars.items():
            p = d['phi']
            if p.op == 'ite' and p.args[1] is TRUE and p.args[2] is FALSE:
                m[p.args[0]] = vals[loc]
            else:
                m[p] = vals[loc]
        return simp(subst(t, m))

    def step(self, vals, key, value, pc=TRUE):
        """(condition under which reading goes on, state)"""
        k = ok(some(key))
        c = restrict(self._sub(self.L.endpc, vals, k, value), pc)
        nxt = {loc: restrict(self._sub(d['next'], vals, k, value), AND(pc, c)) for loc, d in self.vars.items()} if c is not FALSE else None
        return c, nxt

    def early(self, vals, key, value, pc=TRUE):
        return restrict(self._sub(self.r.ret, vals, ok(some(key)), value), pc)

    def finish(self, vals, pc=TRUE):
        return restrict(self._sub(self.r.ret, vals, ok(NONE), None), pc)

    def read(self, doc, pc=TRUE):
        """result of reading the document, or None when a step may stop early; types: borrowed value types met"""
        vals = self.start()
        for name, v in doc:
            c, nxt = self.step(vals, KB(name), v, pc)
            if c is not TRUE:
                return None, (name, c)
            vals = nxt
        return self.finish(vals, pc), None


def coerce(v, T):
    return some(v) if T.startswith('core::option::Option<') else v


def simp(t):
    for _ in range(4):
        ds = [x for x in find(t, lambda x: x.op == 'b64dec') if x.args[1].op == 'b64']
        if not ds:
            return t
        for x in ds:
            e1, e2 = x.args[0], x.args[1].args[0]
            t = LP.replace(t, x, ok(x.args[1].args[1]) if e1 is e2 else err(mk('b64err', x)))
    return t


def borrowed(cx, rd, name, v):
    """types into which the value of a field is read must own their text"""
    if kstr(v) is not None:
        return
    c, nxt = rd.step(rd.start(), KB(name), v)
    # the reads reached with this key
    for x in rd.nv:
        T = x.args[1]
        if '&' in T:
            probe = sym('probe')
            hit = False
            for loc, d in rd.vars.items():
                t = d['next']
                for k in rd.nk:
                    t = LP.replace(t, k, ok(some(KB(name))))
                if x in find(t, lambda y: y is x):
                    hit = True
            if hit:
                raise Violation(f'field {name!r} is read into {T}, which cannot hold text that is escaped in the file', rd.r.where)


def judge(cx, got, exp, what, r, pc=TRUE):
    if veq(got, exp, pc):
        return
    why = murky(restrict(got, pc), exp)
    if why:
        raise Undecided(f'{what}: {why}; got {show(got, 8)[:300]}')
    raise Violation(f'{what}: got {show(restrict(got, pc), 10)[:500]}; required {show(exp, 10)[:400]}', r.where)


def stopped(stop, what, rd):
    name, c = stop
    why = murky(c)
    if why:
        raise Undecided(f'{what}: {why}')
    raise Violation(f'{what}: reading stops at field {name!r}', rd.r.where)


def accepts(rd, vals, key, value):
    """whether a document ending with this field is accepted"""
    c, nxt = rd.step(vals, key, value)
    e = AND(NOT(c), is_ok(rd.early(vals, key, value, NOT(c)))) if c is not TRUE else FALSE
    return OR(AND(c, is_ok(rd.finish(nxt, c))), e) if c is not FALSE else e


def must_reject(rd, vals, key, value, what):
    c, nxt = rd.step(vals, key, value)
    # every comparison of an unknown text with a constant fails
    g = TRUE
    for src in (key, value):
        if src is None:
            continue
        for a in atoms_of(c) | atoms_of(rd.early(vals, key, value)):
            if a.op not in ('lt0', 'is', 'flt') and src in set(subterms(a)):
                g = AND(g, NOT(atom(a)))
    c = restrict(c, g)
    if c is FALSE:
        ret = restrict(rd.early(vals, key, value, g), g)
        if is_ok(ret) is FALSE or restrict(is_ok(ret), g) is FALSE:
            return
        if murky(is_ok(ret)):
            raise Undecided(murky(is_ok(ret)))
        raise Violation(f'{what}: accepted', rd.r.where)
    if murky(c):
        raise Undecided(f'{what}: {murky(c)}')
    raise Violation(f'{what}: reading goes on', rd.r.where)


def atoms_of(t):
    out = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        out.add(x.args[0])
        st += [x.args[1], x.args[2]]
    return out


def err_when(rd, vals, what, r):
    f = rd.finish(vals)
    c = is_ok(f)
    if c is FALSE:
        return
    if murky(c):
        raise Undecided(f'{what}: {murky(c)}')
    raise Violation(f'{what}: accepted', rd.r.where)


def read_without(rd, doc, name):
    vals = rd.start()
    for n, v in doc:
        if n == name:
            continue
        c, nxt = rd.step(vals, KB(n), v)
        if c is not TRUE:
            return None
        vals = nxt
    return vals


def c12(cx):
    F = fieldsof(cx)

    def spec(s):
        return ok(mk('t_new', mk('m_from', F.v(fld(s, 0, F.model))), fld(s, 0, F.procs), fld(s, 0, F.specials)))

    def roundtrip():
        w, rd = Writer(cx, TKN), Reader(cx, TKN)
        n = 0
        for pc, doc in w.docs():
            got, stop = rd.read(doc, pc)
            if stop:
                stopped(stop, 'reading what was written', rd)
            got = unwrap_items(got)
            judge(cx, got, spec(w.self), 'tokenizer read from what was written', rd.r, pc)
            n += len(doc)
        return f'reading the written fields yields Tokenizer::new(Model::from(vocab), processors, special_tokens) of the same contents; {n} fields'
    cx.ob('roundtrip', 'reading the written document rebuilds the tokenizer from the same vocabulary, processors and special tokens', roundtrip)

    def owned():
        w, rd = Writer(cx, TKN), Reader(cx, TKN)
        n = 0
        for pc, doc in w.docs():
            for name, v in doc:
                borrowed(cx, rd, name, v)
                n += 1
        return f'{n} fields read into owned types'
    cx.ob('owned', 'every field is read into a type that can hold whatever was written', owned)

    def unknown():
        rd = Reader(cx, TKN)
        must_reject(rd, {loc: d['phi'] for loc, d in rd.vars.items()}, sym('key'), sym('value'), 'a field of unknown name')
        return 'unknown field: error'
    cx.ob('unknown-field', 'a field of unknown name is rejected', unknown)

    def version():
        w, rd = Writer(cx, TKN), Reader(cx, TKN)
        (pc, doc), = w.docs()
        ver = [(n, v) for n, v in doc if kstr(v) is not None]
        if len(ver) != 1:
            raise Undecided('version field not recognised')
        name, v = ver[0]
        vals = read_without(rd, doc, name)
        if vals is None:
            raise Undecided('document not read')
        err_when(rd, vals, 'a file without a version', rd.r)
        x = sym('version')
        f = accepts(rd, vals, KB(name), x)
        g = eq(x, v, 'adt')
        if f is TRUE:
            raise Violation('a file of any version is accepted', rd.r.where)
        ats = atoms_of(f)
        if len(ats) == 1:
            a = next(iter(ats))
            if a.op == 'eqk' or x in set(subterms(a)):
                pos_ = subst(a, {x: v}) if a.op != 'is' else None
                if restrict(f, NOT(atom(a))) is not FALSE:
                    raise Violation('a file of another version is accepted', rd.r.where)
                if v not in set(subterms(a)):
                    raise Violation(f'accepted version is not the written one: {show(f)[:200]}', rd.r.where)
                return 'accepted iff equal to the written version'
        # a version check of another shape: tried on sample versions
        for o in ('', '1.0', '2', '2.1', '2.0.1', '2.0 ', '02.0', '3.0', '1.2.0'):
            if o != kstr(v) and accepts(rd, vals, KB(name), KB(o)) is TRUE:
                raise Violation(f'a file of version {o!r} is accepted; {kstr(v)!r} is written', rd.r.where)
        raise Undecided(f'version check not recognised: {show(f)[:200]}')
    cx.ob('version', 'a file without a version, or of another version than the one written, is rejected', version)

    def save():
        r = cx.tok('save')
        ws = filewrites(r.events)
        cx.must(len(ws) >= 1, 'save writes a file', r)
        ws = [w for w in ws if w['name'] not in ('read', 'fs::create_dir_all')]
        if len(ws) != 1:
            raise Undecided(f'{len(ws)} file operations')
        w = ws[0]
        if w['name'] != 'write':
            raise Undecided(f'saving does {w["name"]}')
        good = is_ok(r.ret)
        if not proves(OR(NOT(good), w['pc'])):
            why = murky(OR(NOT(good), w['pc']))
            if why:
                raise Undecided(why)
            raise Violation(f'success is reported without writing when {show(NOT(w["pc"]), 6)[:200]}', r.where)
        j = mk('tojson', r.p(0))
        cx.same(w['path'], r.p(1), 'file written', r)
        d = w['data']
        if d.op == 'cat':        # blanks around a document mean nothing
            d = cat(*[x for x in d.args if not (x.op == 'kb' and not kval(x).strip())])
        cx.same(d, fld(j, 0, 0), 'contents written', r)
        return 'writes the serialized tokenizer'
    cx.ob('save', 'save writes exactly the serialized tokenizer', save)

    def from_file():
        r = cx.tok('from_file')
        f = [e for e in r.ev('fs')]
        if len(f) != 1:
            raise Undecided('file reading not recognised')
        rd_ = f[0]
        x = find(r.ret, lambda x: x.op == 'fromreader')
        if x:
            rd = Reader(cx, TKN)
            if any('&' in k.args[1] for k in rd.nk):
                raise Violation('field names are read into borrowed text, which a streaming reader cannot provide', r.where)
            raise Undecided('streaming reader')
        src = find(r.ret, lambda x: x.op == 'fsread')
        js = find(r.ret, lambda x: x.op == 'fromjson')
        if len(set(src)) != 1 or len(set(js)) != 1:
            raise Undecided('reading not recognised')
        s, j = list(src)[0], list(js)[0]
        cx.must(r.p(0) in s.args, 'the given path is read', r)
        cx.same(j.args[1], fld(s, 0, 0), 'text parsed', r)
        good = AND(is_ok(s), is_ok(j))
        cx.same(is_ok(r.ret), good, 'loading succeeds iff the file is read and parses', r)
        cx.same(fld(r.ret, 0, 0), fld(j, 0, 0), 'loaded tokenizer', r, good)
        return 'parse of the whole file'
    cx.ob('load', 'from_file parses the whole contents of the file', from_file)

    def fromstr():
        b = cx.method(TKN, 'from_str', 'FromStr', crate=LIB)
        r = cx.run(b, None)
        js = list(set(find(r.ret, lambda x: x.op == 'fromjson')))
        if len(js) != 1:
            raise Undecided('parsing not recognised')
        cx.same(js[0].args[1], r.p(0), 'text parsed', r)
        cx.same(is_ok(r.ret), is_ok(js[0]), 'parsing succeeds iff the document does', r)
        cx.same(fld(r.ret, 0, 0), fld(js[0], 0, 0), 'parsed tokenizer', r, is_ok(js[0]))
        b = cx.method(TKN, 'to_string', 'ToString', crate=LIB, optional=True)
        if b is not None:
            r = cx.run(b, None)
            cx.same(r.ret, fld(mk('tojson', r.p(0)), 0, 0), 'text form', r)
        return 'text form is the serialized form'
    cx.ob('text', 'from_str and to_string use the same serialized form', fromstr)


def unwrap_items(t):
    for x in find(t, lambda x: x.op == 'items'):
        t = LP.replace(t, x, x.args[0])
    return t


def c13(cx):
    F = fieldsof(cx)

    def roundtrip():
        w, rd = Writer(cx, SCT), Reader(cx, SCT)
        s = w.self
        n = 0
        exp = [None] * 3
        exp[F.value], exp[F.score], exp[F.keep] = F.val(s), F.sc(s), atom(F.kp(s)) if F.kp(s).op != 'ite' else F.kp(s)
        exp = ok(agg(SCT, 0, tuple(exp)))
        for pc, doc in w.docs():
            got, stop = rd.read(doc, pc)
            if stop:
                stopped(stop, 'reading what was written', rd)
            for i, nm in ((F.value, 'bytes'), (F.score, 'score'), (F.keep, 'keep flag')):
                judge(cx, fld(fld(got, 0, 0), 0, i), fld(fld(exp, 0, 0), 0, i), f'{nm} read back', rd.r, pc)
            judge(cx, is_ok(got), TRUE, 'reading what was written succeeds', rd.r, pc)
            n += 1
        return f'{n} written shapes (UTF-8 or not, keep or not), each read back as the same token'
    cx.ob('roundtrip', 'reading a written token yields the same bytes, score and keep flag', roundtrip)

    def owned():
        w, rd = Writer(cx, SCT), Reader(cx, SCT)
        for pc, doc in w.docs():
            for name, v in doc:
                borrowed(cx, rd, name, v)
        return 'owned types'
    cx.ob('owned', 'text is read into a type that can hold escapes', owned)

    def unknown():
        rd = Reader(cx, SCT)
        must_reject(rd, {loc: d['phi'] for loc, d in rd.vars.items()}, sym('key'), sym('value'), 'a field of unknown name')
        return 'unknown field: error'
    cx.ob('unknown-field', 'a field of unknown name is rejected', unknown)

    def missing():
        w, rd = Writer(cx, SCT), Reader(cx, SCT)
        docs = w.docs()
        always = set.intersection(*[{n for n, v in d if not all(l in (TRUE, FALSE) for _, l in leaves(v, TRUE))} for _, d in docs])
        for name in sorted(always):
            pc, doc = docs[0]
            vals = read_without(rd, doc, name)
            if vals is None:
                raise Undecided('document not read')
            err_when(rd, vals, f'a token without {name!r}', rd.r)
        cx.must(len(always) >= 2, 'value and score are always written', w.r)
        return f'missing {sorted(always)}: error'
    cx.ob('missing-field', 'a token without its value or score is rejected', missing)

    def exact():
        import re
        t = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'Cargo.toml')).read()
        m = re.search(r'^\s*serde_json\s*=\s*(.*)$', t, re.M)
        if not m:
            raise Undecided('serde_json not found in Cargo.toml')
        if 'float_roundtrip' not in m.group(1) and 'arbitrary_precision' not in m.group(1):
            raise Violation('serde_json reads numbers inexactly without its float_roundtrip feature: a score can change in its last digit', 'Cargo.toml: serde_json = ' + m.group(1).strip())
        return 'float_roundtrip'
    cx.ob('score-exact', 'numbers are read exactly', exact)


def c14(cx):
    def variants(ty):
        a = cx.prog.adt_by_path[ty]
        return a['n'], [v['name'] for v in a['variants']]

    def value(ty, v):
        return agg(ty, v, ())

    def docs_of(ty):
        w = Writer(cx, ty)
        n, vs = variants(ty)
        out = []
        for i, name in enumerate(vs):
            g = isvar(w.self, i, n) if n > 1 else TRUE
            for pc, doc in w.docs(g):
                out.append((name, i, pc, [(k, restrict(v, pc)) for k, v in doc]))
        return w, out

    def back(ty):
        w, ds = docs_of(ty)
        rd = Reader(cx, ty)
        for name, i, pc, doc in ds:
            got, stop = rd.read(doc, pc)
            if stop:
                stopped(stop, f'reading a written {name}', rd)
            judge(cx, got, ok(value(ty, i)), f'processor read back from a written {name}', rd.r, pc)
        tags = {name: tuple((k, kstr(v)) for k, v in doc) for name, i, pc, doc in ds}
        cx.must(len(set(tags.values())) == len(tags), 'different processors are written differently', w.r)
        return f'{len(ds)} documents read back: {tags}'
    cx.ob('crlf', 'a written CRLF processor reads back as one', back, CRLF)
    cx.ob('unicode', 'each written Unicode processor reads back as the same form', back, UNI)

    def names_():
        exp = {'Crlf': {('type', 'crlf')}, 'Nfc': {('type', 'unicode'), ('form', 'nfc')}, 'Nfd': {('type', 'unicode'), ('form', 'nfd')},
               'Nfkc': {('type', 'unicode'), ('form', 'nfkc')}, 'Nfkd': {('type', 'unicode'), ('form', 'nfkd')}}
        n = 0
        for ty in (CRLF, UNI):
            w, ds = docs_of(ty)
            for name, i, pc, doc in ds:
                key = 'Crlf' if ty == CRLF else name
                got = {(k, kstr(v)) for k, v in doc}
                if any(v is None for _, v in got):
                    raise Undecided('written text not constant')
                if key not in exp:
                    raise Undecided('unknown form')
                if got != exp[key]:
                    raise Violation(f'{key} is written as {sorted(got)}', w.r.where)
                n += 1
        return f'{n} processors written under their documented names'
    cx.ob('names', 'each processor is written with its documented type tag and form name', names_)

    def rejects(ty):
        w, ds = docs_of(ty)
        rd = Reader(cx, ty)
        vals = {loc: d['phi'] for loc, d in rd.vars.items()}
        must_reject(rd, vals, KB('type'), sym('tag'), f'an entry of another type read as {ty.split("::")[-1]}')
        if ty == UNI:
            v = rd.start()
            c, v = rd.step(v, KB('type'), KB('unicode'))
            f = accepts(rd, v, KB('form'), sym('form'))
            g = TRUE
            for a in atoms_of(f):
                if sym('form') in set(subterms(a)):
                    g = AND(g, NOT(atom(a)))
            if restrict(f, g) is not FALSE:
                if murky(f):
                    raise Undecided(murky(f))
                raise Violation('an unknown normal form is accepted', rd.r.where)
            err_when(rd, v, 'a Unicode processor without a form', rd.r)
        return 'other tags and forms: error'
    cx.ob('crlf-rejects', 'an entry of another type is not read as CRLF', rejects, CRLF)
    cx.ob('unicode-rejects', 'an entry of another type or unknown form is not read as Unicode', rejects, UNI)

    def bodies(trait, name):
        bs = [b for h, b in cx.prog.bodies.items() if b['crate'].id == LIB and f'{trait}' in cx.prog.defs[h]['path'] and 'ProcessorWrapper' in cx.prog.defs[h]['path'].split(' for ')[-1]
              and cx.prog.defs[h].get('name') == name and '{closure' not in cx.prog.defs[h]['path']]
        if len(bs) != 1:
            raise Undecided(f'{trait} for ProcessorWrapper: {len(bs)} implementations')
        return bs[0]

    def anch(trait, name, op):
        out = {}
        for i, ty in enumerate((CRLF, UNI)):
            b = cx.method(ty, name, trait, crate=LIB)
            out[cx.prog.defs[b['def']]['path']] = (lambda i: lambda I, a, st, fr, e: mk(op, i, *[I.deep(st, x) for x in a]))(i)
        return out

    def wrapped():
        b = bodies('Serialize', 'serialize')
        r = cx.run(b, None, extra=anch('Serialize', 'serialize', 'ser'), tag='wrap')
        n, vs = variants(WRAP)
        for ty, nm in ((CRLF, 'Crlf'), (UNI, 'Unicode')):
            v = cx.vidx(WRAP, nm)
            g = isvar(r.p(0), v, n)
            got = restrict(r.ret, g)
            if got.op != 'ser':
                raise Undecided('wrapped writer not recognised')
            cx.must(got.args[0] == (0 if ty == CRLF else 1), f'{nm} is written by its own writer', r)
            cx.same(got.args[1], fld(r.p(0), v, 0), f'written processor', r, g)
        b = bodies('Deserialize', 'deserialize')
        r2 = cx.run(b, None, extra=anch('Deserialize', 'deserialize', 'read'), tag='wrap')
        calls = {x.args[0]: x for x in find(r2.ret, lambda x: x.op == 'read')}
        if set(calls) != {0, 1}:
            raise Undecided('wrapped reader not recognised')
        k = 0
        for i, ty in enumerate((CRLF, UNI)):
            w, ds = docs_of(ty)
            for name, vi, pc, doc in ds:
                t = r2.ret
                for jj, ty2 in enumerate((CRLF, UNI)):
                    rd = Reader(cx, ty2)
                    got, stop = rd.read(doc, pc)
                    if stop is not None:
                        if stop[1] is not FALSE:
                            raise Undecided('reading stops conditionally')
                        got = err(mk('rejected'))
                    for x in find(t, lambda x: x.op == 'read' and x.args[0] == jj):
                        t = LP.replace(t, x, got)
                nm = 'Crlf' if ty == CRLF else 'Unicode'
                exp = ok(agg(WRAP, cx.vidx(WRAP, nm), (value(ty, vi),)))
                # errors of reading the buffered content cannot occur for a written document
                g = TRUE
                for a in atoms_of(t):
                    if a.op == 'is' and find(a, lambda x: x.op in ('unk', 'call')):
                        g = AND(g, atom(a) if a.args[1] == 0 else NOT(atom(a)))
                judge(cx, restrict(t, g), exp, f'wrapped processor read back from a written {name}', r2, pc)
                k += 1
        return f'{k} wrapped documents read back as the same processor'
    cx.ob('wrapped', 'a wrapped processor is written by its own writer and read back as the same processor', wrapped)

    def table():
        bs = [b for b in cx.prog.find('tokengeex::load_processors') if b['crate'].id == CLI]
        if len(bs) != 1:
            raise Undecided('load_processors not found')
        r = cx.run(bs[0], None)
        cx.clear(r)
        xs = r.p(0)
        t = restrict(r.ret, TRUE)
        if t.op != 'bc':
            raise Undecided('not a map over the names')
        n = t.args[2][0]
        cx.same(n, seqlen(xs), 'names considered', r)
        j = sym('nm')
        body = open_(t, j)
        el = at(xs, j)
        back = at(xs, sub(sub(seqlen(xs), TT.K(1)), j))
        if el not in set(subterms(body)) and back in set(subterms(body)):
            raise Violation('the processors are put together in reverse order of their names', r.where)
        if el not in set(subterms(body)) and any(x.op == 'at' and x.args[0].op == 'sorted' and x.args[0].args[0] is xs for x in subterms(body)):
            raise Violation('the processors are put in order of their names', r.where)
        W = WRAP
        want = {'crlf': ('Crlf', None)}
        for f in ('Nfc', 'Nfd', 'Nfkc', 'Nfkd'):
            want[f.lower()] = ('Unicode', f)
        ps = r.ev('panic')
        for nm, (w, f) in want.items():
            if any(for_name(e['pc'], r, xs, KB(nm)) is TRUE for e in ps):
                raise Violation(f'processor name {nm!r} is refused', r.where)
            x = LP.replace(body, el, KB(nm))
            if x is EMPTY:
                raise Violation(f'processor name {nm!r} is ignored', r.where)
            if x.op != 'one' or x.args[0].op != 'agg' or not x.args[0].args[2]:
                raise Undecided(f'processor for {nm} not recognised: {show(x)[:200]}')
            x = x.args[0]
            inner = x.args[2][0]
            if inner.op != 'agg':
                raise Undecided(f'processor for {nm} not recognised: {show(inner)[:200]}')
            if x.args[1] != cx.vidx(W, w) or f is not None and inner.args[1] != cx.vidx(UNI, f):
                raise Violation(f'processor name {nm!r} yields {show(x)}', r.where)
        if not ps:
            raise Violation('unknown processor names are accepted', r.where)
        for o in ('', 'utf8', 'NFC', 'nfc ', 'nf', 'none'):
            cs = [for_name(e['pc'], r, xs, KB(o)) for e in ps]
            c = restrict(OR(*cs), TRUE)
            if c is FALSE:
                raise Violation(f'unknown processor name {o!r} is accepted', r.where)
        return f'{len(want)} names, each yields its own processor; other names are refused'
    cx.ob('cli-names', 'the command line maps each processor name to the processor of that name', table)


def for_name(pc, r, xs, nm):
    """the part of a condition that depends on the name, for this name"""
    for l in r.loops.values():
        pc = LP.replace(pc, at(xs, l.j), nm)
    g = TRUE
    for x in atoms_of(pc):
        if x.op == 'lt0':
            g = AND(g, pos_atom(pc, x))
    return restrict(pc, g)


def pos_atom(pc, x):
    """the polarity of a range condition under which pc can hold"""
    return atom(x) if restrict(pc, NOT(atom(x))) is FALSE else NOT(atom(x)) if restrict(pc, atom(x)) is FALSE else TRUE
