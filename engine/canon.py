"""Canonical access paths inside one expanded graph.

Heap objects are named by the place they end up in (their "home"), list
elements by the list they belong to, locals by the value they hold, arguments
by position.  Two functions can then be compared whatever temporaries, helper
functions or loop forms they use.
"""
from terms import *

ALLOC = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'strdup'}
NOWRITE = {'fwrite', 'printf', 'fprintf', 'strcmp', 'strncmp', 'strlen',
           'strnlen', 'fputs', 'puts', 'free'}
LINKS = {'next', 'prev'}


def is_alloc(t):
    return t.k == 'call' and t.a[1] in ALLOC


class Canon:
    def __init__(self, g):
        self.g = g
        self.memo = {}
        self.busy = set()
        self.stores = {}      # addr -> [values]
        self.homes = {}       # value -> [addr]
        self.freads = {}      # alloca -> nodes
        for n in g.nodes:
            if n.kind == 'store':
                a, v = n.a
                self.stores.setdefault(a, []).append(v)
                if v.k in ('call', 'ld', 'alloca', 'phi'):
                    self.homes.setdefault(v, []).append(a)
            elif n.kind in ('call', 'vcall') and n.a[0] not in NOWRITE:
                for x in n.a[1:]:
                    if x.k == 'alloca':
                        self.freads.setdefault(x, []).append(n)

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return mk('cyc')
        self.busy.add(t)
        r = self._c(t)
        self.busy.discard(t)
        if not contains(r, mk('cyc')):
            self.memo[t] = r
        return r

    def _c(self, t):
        k, a = t.k, t.a
        if k == 'arg':
            return mk('arg', a[0])
        if k in ('c', 'fc', 'null', 'undef', 'g', 'fn', 'str'):
            return t
        if k == 'alloca':
            return t
        if k == 'cast':
            return self(a[1])
        if k == 'fld':
            return mk('fld', self(a[0]), a[1], a[2])
        if k == 'idx':
            b = self(a[0])
            i = self(a[1])
            if i.k == 'c' and i.a[0] == 0 and b.k != 'alloca':
                return b
            return mk('idx', b, i)
        if k == 'ld':
            x = a[0]
            if x.k == 'alloca':
                vs = {self(v) for v in self.stores.get(x, [])}
                if x in self.freads:
                    hs = self._homes(t)
                    if len(hs) == 1:
                        return mk('ld', next(iter(hs)))
                    return mk('ld', x)
                if len(vs) == 1:
                    return next(iter(vs))
                return mk('ld', x)
            if x.k == 'fld' and x.a[2] in LINKS:
                return self(x.a[0])
            return mk('ld', self(x))
        if k == 'phi':
            info = self.g.phi.get(a[0])
            if info is None or not info.get('inc'):
                return t
            if info['kind'] == 'ind':
                return mk('ind', self(info['init']), info['step'][0],
                          self.bound(t))
            vals = set()
            for v, _ in info['inc']:
                if v is t or v.k == 'undef':
                    continue
                c = self(v)
                if c.k == 'cyc':
                    continue
                vals.add(c)
            if len(vals) == 2 and NULL in vals:
                vals.discard(NULL)
            if len(vals) == 1:
                return next(iter(vals))
            return mk('merge', *sorted(vals, key=lambda q: q.n))
        if k == 'call':
            if is_alloc(t):
                hs = self._homes(t)
                if len(hs) == 1:
                    return mk('ld', next(iter(hs)))
                return mk('new', a[0])
            return mk('call', 0, a[1], *[self(x) for x in a[2:]])
        na = tuple(self(c) if isinstance(c, T) else c for c in a)
        return rebuild(k, na)

    def _homes(self, t):
        hs = set()
        for h in self.homes.get(t, []):
            if h.k == 'alloca':
                # pointer kept in an address-taken local
                continue
            if h.k == 'fld' and h.a[2] in LINKS:
                c = self(h.a[0])
                if c.k == 'ld':
                    c = c.a[0]
                elif c.k == 'cyc':
                    continue
                else:
                    continue
            else:
                c = self(h)
            if contains(c, mk('cyc')):
                continue
            hs.add(c)
        return hs

    def bound(self, t):
        """upper bound term of a counted loop: (pred, bound)"""
        info = self.g.phi[t.a[0]]
        ins = info['ins']
        f = info['fn']
        inst = info['inst']
        # find a branch in the loop that tests the phi
        for b in f.blocks:
            br = b.ins[-1]
            if br.op == 'br' and br.a:
                c = inst.val(br.a[0])
                if c.k == 'cmp' and (c.a[1] is t or c.a[2] is t):
                    o = c.a[2] if c.a[1] is t else c.a[1]
                    if contains(o, t):
                        continue
                    return mk('bnd', c.a[0], self(o))
        for i2 in ins.bb.ins:
            if i2.op == 'phi' and i2 is not ins:
                u = inst.val(('v', i2.res))
                inf = self.g.phi.get(u.a[0]) if u.k == 'phi' else None
                if inf and inf['kind'] == 'iter':
                    return mk('bnd', 'list', self(inf['init']))
        return mk('bnd', '?')


def chain(t):
    """field chain of an access path (outermost last) and its root"""
    out = []
    while True:
        if t.k == 'fld':
            out.append(t.a[1] + '.' + t.a[2])
            t = t.a[0]
        elif t.k in ('ld',):
            t = t.a[0]
        elif t.k == 'idx':
            out.append('[]')
            t = t.a[0]
        else:
            break
    out.reverse()
    return t, tuple(out)
