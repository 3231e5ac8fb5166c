"""Name tables of the program: functions that turn a code into a name and a
name into a code, discovered from what they do."""
from model import *
from absint import *

CODES = range(-2, 64)


def encoders(prog):
    """{function: {code: name}} of functions int -> constant string"""
    out = {}
    for n, f in prog.funcs.items():
        if len(f.args) != 1 or not own(f):
            continue
        if not any(i.op in ('switch', 'icmp') for b in f.blocks
                   for i in b.ins):
            continue
        if fsig(f) != ('ptr', ['i32']):
            continue
        g = Expander(prog).expand(n)
        a = mk('arg', 0, f.args[0])
        m = {}
        cs = set(CODES)
        for x in g.nodes:
            for _, cd in x.succ:
                for q in subterms(cd[0]) if cd else ():
                    if q.k == 'in':
                        cs |= set(q.a[1])
                    elif q.k == 'c':
                        cs.add(q.a[0])
        for c in sorted(cs):
            L = Live(g, facts={a: c})
            if L.returns:
                r = L.ret()
                if len(r) == 1 and isinstance(next(iter(r)), str):
                    m[c] = next(iter(r))
        if len(m) >= 2:
            out[n] = m
    return out


def decoder_graphs(prog):
    out = {}
    for n, f in prog.funcs.items():
        if len(f.args) != 1 or not own(f) or fsig(f) != ('i32', ['ptr']):
            continue
        if not any(c in ('strncmp', 'strcmp') for c in callees(f)):
            continue
        g = Expander(prog).expand(n)
        out[n] = (g, mk('arg', 0, f.args[0]))
    return out


def decode(gd, s):
    g, a = gd
    L = Live(g, facts={a: s})
    if not L.returns:
        return None
    r = L.ret()
    return next(iter(r)) if len(r) == 1 else 'ambiguous'


def own(f):
    return 'cJSON' not in (f.file or '') and 'cJSON' not in f.name


def callees(f):
    out = set()
    for b in f.blocks:
        for i in b.ins:
            if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
                out.add(i.x['callee'][1])
    return out


def fsig(f):
    """(return type, argument types) with pointers as 'ptr'"""
    r = 'void'
    for b in f.blocks:
        for i in b.ins:
            if i.op == 'ret' and i.a:
                r = retty(f)
    return (r, [ty(t) for t in f.argtypes])


def ty(t):
    return t if isinstance(t, str) else t[0]


def retty(f):
    m = _RET.get(f.name)
    if m is None:
        m = 'i32'
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'ret' and i.a:
                    o = i.a[0]
                    if o[0] in ('g', 'null', 'cgep'):
                        m = 'ptr'
                    elif o[0] == 'v':
                        d = f.defs.get(o[1])
                        if d is not None and isptr(f, d):
                            m = 'ptr'
        _RET[f.name] = m
    return m


_RET = {}


def isptr(f, d, seen=()):
    if d.op in ('getelementptr', 'alloca'):
        return True
    if d.op == 'phi':
        for v, _ in d.x:
            if v[0] in ('g', 'null', 'cgep'):
                return True
            if v[0] == 'v' and v[1] not in seen:
                q = f.defs.get(v[1])
                if q is not None and isptr(f, q, seen + (v[1],)):
                    return True
    return False


FAMILY = {('ArgsCond', 'type'): 'condition', ('ArgsAct', 'type'): 'action',
          ('ArgsPred', 'type'): 'prediction', ('Layer', 'type'): 'layer'}


def tables(prog):
    """[(encoder, {code: name}, decoder, graph)] paired by shared names"""
    enc = encoders(prog)
    dec = decoder_graphs(prog)
    out = []
    for e, m in sorted(enc.items()):
        best = None
        for d, gd in dec.items():
            k = sum(1 for s in m.values() if decode(gd, s) in m)
            # literals compared by the decoder
            lits = {t.a[0].split('\0')[0] for n in gd[0].nodes
                    if n.kind == 'call' for t in n.a[1:]
                    if isinstance(t, T) and t.k == 'str'}
            k = (len(lits & set(m.values())), k)
            if k[0] and (best is None or k > best[0]):
                best = (k, d)
        out.append((e, m, best[1] if best else None,
                    dec[best[1]] if best else None))
    return out
