"""Which struct fields the program reads anywhere."""
from terms import *

_m = {}


def fields(prog):
    if id(prog) in _m:
        return _m[id(prog)]
    out = set()
    ex = Expander(prog, opaque=lambda f: True)
    for name in prog.funcs:
        try:
            g = ex.expand(name)
        except Exception:
            continue
        for n in g.nodes:
            ts = []
            if n.kind == 'load':
                ts.append(n.a[0])
            elif n.kind in ('call', 'vcall'):
                ts += [x for x in n.a[1:] if isinstance(x, T)]
            for t in ts:
                for s in subterms(t):
                    if s.k == 'fld':
                        out.add((s.a[1], s.a[2]))
    _m[id(prog)] = out
    return out
