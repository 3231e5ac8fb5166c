"""Facts about the analysed program shared by the checks."""
import ir
from terms import *
from canon import *
from ir import AnalysisError


def vtables(prog):
    """{vtable global: (vtable type, {slot: function})} from initialisers"""
    out = {}
    for n, g in prog.globals.items():
        if isinstance(g['ty'], tuple) and g['ty'][0] == 'named' and \
                g['ty'][1].endswith('Vtbl') and g['init'] is not None and \
                g['init'][0] == 'agg':
            st = g['ty'][1]
            names = prog.fieldnames[st]
            slots = {}
            for nm, v in zip(names, g['init'][1]):
                slots[nm] = v[1] if v[0] == 'g' else None
            out[n] = (st, slots)
    return out


def slot_kind(slot):
    """'CondVtbl.cond_impl_save' -> ('CondVtbl', 'save')"""
    st, f = slot.split('.')
    return st, f.split('_impl_')[1]


def sccs(nodes, succ):
    """Tarjan, iterative; returns list of lists"""
    index = {}
    low = {}
    onst = set()
    st = []
    out = []
    cnt = 0
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter(succ(r)))]
        index[r] = low[r] = cnt
        cnt += 1
        st.append(r)
        onst.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt
                    cnt += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    c.append(w)
                    if w is v:
                        break
                out.append(c)
    return out


class Loop:
    pass


def loops(g):
    """all loops (nested SCCs) of a graph: header, nodes, parent, exits"""
    res = []

    def rec(nodes, parent, removed):
        ns = set(nodes)

        def succ(n):
            return [s for s, _ in n.succ if s in ns and (n, s) not in removed]
        for c in sccs(nodes, succ):
            cs = set(c)
            if len(c) == 1 and c[0] not in succ(c[0]):
                continue
            L = Loop()
            L.nodes = cs
            L.parent = parent
            heads = [n for n in c if any(p not in cs for p, _ in n.pred)]
            L.header = heads[0] if heads else c[0]
            L.exits = [(n, s, cd) for n in c for s, cd in n.succ
                       if s not in cs]
            res.append(L)
            rem = set(removed)
            for n in c:
                for s, _ in n.succ:
                    if s is L.header:
                        rem.add((n, s))
            rec(sorted(cs, key=lambda n: n.id), L, rem)
    rec(g.nodes, None, set())
    depth = {}
    for L in res:
        d = 0
        q = L
        while q.parent is not None:
            d += 1
            q = q.parent
        L.depth = d
    return res


def innermost(ls):
    m = {}
    for L in sorted(ls, key=lambda l: l.depth):
        for n in L.nodes:
            m[n] = L
    return m


NEG = {'sge': 'slt', 'sgt': 'sle', 'slt': 'sge', 'sle': 'sgt', 'eq': 'ne',
       'uge': 'ult', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'ne': 'eq'}


def trips(g, cn, L, ev=()):
    """number of times the events ev of loop L run:
    ('list', P) | ('n', count term) | None"""
    for n, s, cd in L.exits:
        if cd is None:
            continue
        c, pol = cd
        if c.k != 'cmp':
            continue
        x, y = c.a[1], c.a[2]
        for p, o in ((x, y), (y, x)):
            off = 0
            if p.k == 'op' and p.a[0] in ('add', 'sub') and p.a[2].k == 'c' \
                    and p.a[1].k == 'phi':
                off = p.a[2].a[0] * (1 if p.a[0] == 'add' else -1)
                p = p.a[1]
            elif p.k == 'op' and p.a[0] == 'add' and p.a[1].k == 'c' and \
                    p.a[2].k == 'phi':
                off, p = p.a[1].a[0], p.a[2]
            if p.k != 'phi' or p.a[0] not in g.phi:
                continue
            info = g.phi[p.a[0]]
            if info['kind'] == 'iter' and o is NULL and not off:
                return ('list', cn(info['init']))
            if info['kind'] != 'ind' or contains(o, p):
                continue
            # value of the predicate while staying in the loop
            pred = c.a[0] if o is y else SWAP.get(c.a[0], c.a[0])
            if pol:     # exit when true
                pred = NEG.get(pred, pred)
            pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt',
                    'uge': 'sge'}.get(pred, pred)
            st = info['step'][0]
            i, b = cn(info['init']), cn(o)
            if off:
                i = mkop('add', i, C(off))
            if st == 1 and pred in ('slt', 'ne', 'sle'):
                k = mkop('sub', b, i)
                if pred == 'sle':
                    k = mkop('add', k, C(1))
            elif st == -1 and pred in ('sgt', 'ne', 'sge'):
                k = mkop('sub', i, b)
                if pred == 'sge':
                    k = mkop('add', k, C(1))
            else:
                return None
            # is the test taken before or after the events?
            seen = set()
            w = [L.header]
            ev = set(ev)
            while w:
                q = w.pop()
                if q in seen or q not in L.nodes or q in ev:
                    continue
                seen.add(q)
                w.extend(t for t, _ in q.succ if t is not L.header)
            if ev and n not in seen:
                k = mkop('add', k, C(1))
            if k.k == 'op' and k.a[0] == 'sub' and k.a[2] is C(0):
                k = k.a[1]
            return ('n', k)
    return None
def trip(g, cn, L):
    """('list', P) | ('count', init, step, pred, bound) | None"""
    for n, s, cd in L.exits:
        if cd is None:
            continue
        c, pol = cd
        if c.k != 'cmp':
            continue
        x, y = c.a[1], c.a[2]
        for p, o in ((x, y), (y, x)):
            if p.k == 'phi' and p.a[0] in g.phi:
                info = g.phi[p.a[0]]
                if info['kind'] == 'iter' and o is NULL:
                    return ('list', cn(info['init']))
                if info['kind'] == 'ind':
                    # value of the predicate while staying in the loop
                    pred = c.a[0] if p is x else SWAP.get(c.a[0], c.a[0])
                    if pol:     # exit when true
                        pred = {'sge': 'slt', 'sgt': 'sle', 'slt': 'sge',
                                'sle': 'sgt', 'eq': 'ne', 'uge': 'ult',
                                'ne': 'eq'}.get(pred, pred)
                    b = cn(o)
                    if pred in ('sle', 'ule'):
                        b = mkop('add', b, C(1))
                        pred = 'slt'
                    if pred in ('ne', 'ult'):
                        pred = 'slt'
                    return ('count', cn(info['init']), info['step'][0], pred,
                            b)
    return None
