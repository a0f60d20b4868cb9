"""Loads the THIR dumps of all crates of the repository."""
import json, os, re


class Crate:
    pass


_kc = {}


def simp(p):
    """owner::name of a def path, generics stripped"""
    r = _kc.get(p)
    if r is None:
        q = re.sub(r"<impl \[T\]>", "slice", p)
        q = re.sub(r"<impl \[T; N\]>", "array", q)
        q = re.sub(r"<impl (\w+)>", r"\1", q)
        q = re.sub(r"<impl \*(\w+) T>", "ptr", q)
        prev = None
        while prev != q:
            prev = q
            q = re.sub(r"::<[^<>]*>", "", q)
        r = '::'.join(q.split('::')[-2:])
        _kc[p] = r
    return r


class Prog:
    def __init__(self, files):
        self.defs, self.adts, self.bodies, self.crates = {}, {}, {}, []
        self.adt_by_path, self.by_path = {}, {}
        self.impls = []
        self.failed = []
        for f in files:
            D = json.load(open(f))
            c = Crate()
            c.name, c.kinds, c.types = D['crate'], D['kinds'], D['types']
            c.id = os.path.basename(f).split('.')[1]
            self.failed += D['failed']
            c.impls = D['impls']
            c.statics = D['statics']
            self.crates.append(c)
            for h, d in D['defs'].items():
                o = self.defs.get(h)
                if o is None or (d['local'] and not o['local']):
                    d['crate'] = c
                    self.defs[h] = d
            for a in D['adts']:
                o = self.adts.get(a['def'])
                if o is None or a['local']:
                    a['crate'] = c
                    self.adts[a['def']] = a
                    q = self.adt_by_path.get(a['path'])
                    if q is None or (a['local'] and not q['local']):
                        self.adt_by_path[a['path']] = a
            for b in D['bodies']:
                b['crate'] = c
                if b['def'] not in self.bodies:
                    self.bodies[b['def']] = b
                    self.by_path.setdefault(self.defs[b['def']]['path'], []).append(b)
        # path of an adt -> variant names
        for a in self.adts.values():
            a['n'] = len(a['variants'])
            a['vidx'] = {v['name']: i for i, v in enumerate(a['variants'])}
        # trait impls by (trait item, self type string)
        self.impl_items = {}
        for h, d in self.defs.items():
            if d.get('trait_item') and d.get('local') and h in self.bodies:
                st = d['crate'].types[d['self_ty']]
                self.impl_items.setdefault(d['trait_item'], []).append((st, h))

    def find(self, path, crate=None, trait=None):
        """bodies with this def path"""
        return [b for b in self.by_path.get(path, []) if crate is None or b['crate'].id == crate]

    def method(self, self_path, name, trait=None, crate=None):
        """inherent or trait method of a local type"""
        out = []
        for h, b in self.bodies.items():
            d = self.defs[h]
            if d.get('name') != name or 'self_ty' not in d:
                continue
            st = b['crate'].types[d['self_ty']]
            while st['k'] == 'ref':
                st = b['crate'].types[st['args'][0]]
            if st.get('path') != self_path:
                continue
            if (d.get('impl_trait') or '').split('::')[-1] != (trait or '').split('::')[-1]:
                continue
            if crate and b['crate'].id != crate:
                continue
            out.append(b)
        return out[0] if len(out) == 1 else None

    def trait_impls(self, trait, name):
        out = []
        for h, b in self.bodies.items():
            d = self.defs[h]
            if d.get('impl_trait') == trait and d.get('name') == name:
                out.append((b['crate'].types[d['self_ty']], b))
        return out

    def impl_items_by_trait(self, trait, name):
        key = ('ibt', trait, name)
        c = self.__dict__.setdefault('_ibt', {})
        if key not in c:
            c[key] = self.trait_impls(trait, name)
        return c[key]
