"""Which members and owned buffers a function may write or read, through its
callees and every implementation of the slots it calls."""
from model import *

_m = {}
WR = {'memcpy': 1, 'memset': 1, 'memmove': 1, 'fread': 1, 'strncpy': 1,
      'snprintf': 1, 'sprintf': 1, 'strcpy': 1}
RD = {'memcpy': 2, 'memmove': 2, 'fwrite': 1, 'strncmp': 1, 'strcmp': 1,
      'strlen': 1}


def region(a, elem=False):
    """region of an address term"""
    if a.k == 'fld' and not elem:
        return (a.a[1], a.a[2])
    if a.k == 'idx' or elem:
        b = a.a[0] if a.k == 'idx' else a
        while b.k == 'idx':
            b = b.a[0]
        if b.k == 'ld' and b.a[0].k == 'fld':
            return (b.a[0].a[1], b.a[0].a[2], '[]')
        if b.k == 'fld':
            return (b.a[1], b.a[2], '[]')
        if b.k == 'arg':
            return ('param', b.a[0])
        if b.k == 'g':
            return ('global', b.a[0])
        if b.k == 'ld' and b.a[0].k == 'idx':
            return region(b.a[0])
        return None
    if a.k == 'arg':
        return ('param', a.a[0])
    if a.k == 'g':
        return ('global', a.a[0])
    if a.k == 'ld':
        return region(a, True)
    return None


class ModRef:
    def __init__(self, prog):
        self.prog = prog
        self.vt = vtables(prog)
        ex = Expander(prog, opaque=lambda f: True)
        self.direct = {}
        self.impl = {}
        for _, (S, slots) in self.vt.items():
            for s, f in slots.items():
                if f:
                    self.impl.setdefault('%s.%s' % (S, s), set()).add(f)
        for f in prog.funcs:
            try:
                g = ex.expand(f)
            except Exception:
                continue
            mod, ref, calls = set(), set(), []
            for n in g.nodes:
                if n.kind == 'store':
                    mod.add(region(n.a[0]))
                    v = n.a[1]
                    if v.k == 'fn' and n.a[0].k == 'fld':
                        self.impl.setdefault(
                            '%s.%s' % n.a[0].a[1:], set()).add(v.a[0])
                elif n.kind == 'load':
                    ref.add(region(n.a[0]))
                elif n.kind in ('call', 'vcall'):
                    nm = n.a[0]
                    if nm in WR:
                        mod.add(region(n.a[WR[nm]], True))
                    if nm in RD:
                        ref.add(region(n.a[RD[nm]], True))
                    calls.append((nm, n.a[1:]))
            mod.discard(None)
            ref.discard(None)
            self.direct[f] = (mod, ref, calls)
        self.res = {f: (set(m), set(r)) for f, (m, r, _) in
                    self.direct.items()}
        ch = True
        while ch:
            ch = False
            for f, (_, _, calls) in self.direct.items():
                m, r = self.res[f]
                k = len(m) + len(r)
                for nm, args in calls:
                    for t in self.impl.get(nm, (nm,)):
                        if t in self.res:
                            for dst, src in zip((m, r), self.res[t]):
                                for x in list(src):
                                    if x[0] == 'param':
                                        x = region(args[x[1]], True) \
                                            if x[1] < len(args) else None
                                    if x:
                                        dst.add(x)
                ch |= len(m) + len(r) != k

        # state of the generator
        self.rng = set()
        for f, (m, r) in self.res.items():
            if f.startswith(('rand_', 'dsfmt')):
                self.rng |= {x for x in m | r if x[0] != 'param'}

    def of(self, name):
        """(mod, ref) of a function or slot"""
        m, r = set(), set()
        for t in self.impl.get(name, (name,)):
            if t in self.res:
                m |= self.res[t][0]
                r |= self.res[t][1]
        return m, r


def modref(prog):
    if id(prog) not in _m:
        _m[id(prog)] = ModRef(prog)
    return _m[id(prog)]
