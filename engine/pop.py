"""Events of classifier sets: numerosity, set counters, list links."""
from model import *
from esp import Esp, Overflow
import names
import ir

PRIMS = ('clset_add', 'clset_init', 'clset_validate', 'clset_free',
         'clset_kill')
COUNTED = {('Cl', 'num'), ('Set', 'num'), ('Set', 'size')}


def vload(a):
    return a.k == 'fld' and a.a[1:] in COUNTED


def expand(prog, f, opaque=lambda n: False):
    ops = set(PRIMS) - {f}
    return Expander(prog, opaque=lambda q: q.name in ops or opaque(q.name),
                    vload=vload).expand(f)


def setname(t):
    """'pset', 'mset', ... of the address of a set, or the term itself"""
    if t.k == 'fld' and t.a[1] == 'XCSF':
        return t.a[2]
    return None


def setaddr(a):
    """(set, field) of an address of a member of a set"""
    if a.k == 'fld' and a.a[1] == 'Set':
        return a.a[0], a.a[2]
    return None, None


def padd(p, q, s=1):
    d = dict(p)
    for k, v in q:
        d[k] = d.get(k, 0) + s * v
    return frozenset((k, v) for k, v in d.items() if v)


ZERO = frozenset()


def pconst(c):
    return frozenset([((), c)]) if c else ZERO


def psym(t):
    return frozenset([((t,), 1)])


def peval(t, vals):
    """polynomial of a term, loads replaced by what they read"""
    out = ZERO
    for mon, c in poly(t):
        if len(mon) == 0:
            out = padd(out, pconst(c))
        elif len(mon) == 1:
            x = mon[0]
            if x.k == 'vld':
                v = vals.get(x)
                if v is None:
                    v = psym(x)     # read before a loop: unknown
            else:
                v = psym(x)
            out = padd(out, frozenset((k, q * c) for k, q in v))
        else:
            out = padd(out, frozenset([(mon, c)]))
    return out


def fresh(t):
    """classifier created in this function"""
    return t.k == 'call' and t.a[1] in ('malloc', 'calloc')


def public(prog):
    return [n for n, f in sorted(prog.funcs.items()) if names.own(f)]


def api(prog):
    """library functions the Python interface calls"""
    import os
    import re
    p = os.path.join(ir.REPO, 'xcsf', 'pybind_wrapper.cpp')
    try:
        with open(p) as f:
            text = f.read()
    except OSError:
        raise ir.AnalysisError("Python interface not found")
    text = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', ' ', text,
                  flags=re.S)
    return {w for w in re.findall(r'[A-Za-z_]\w*', text) if w in prog.funcs}
