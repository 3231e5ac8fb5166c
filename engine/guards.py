"""Conditions that hold on every path to a node."""
from model import *
from typestate import phis_by_block


def must_conds(g, keep=lambda c: True, live=None):
    """node -> frozenset of (condition term, polarity) established by branches
    on every path from the entry; facts about loop variables die when the
    variable takes its next value."""
    pb = phis_by_block(g)
    # phis that occur in any kept condition
    conds = set()
    for n in g.nodes:
        for s, cd in n.succ:
            if cd and keep(cd[0]):
                conds.add(cd[0])
    byphi = {}
    for c in conds:
        for t in subterms(c):
            if t.k == 'phi':
                byphi.setdefault(t, set()).add(c)

    def tr(n, s):
        if n.kind == 'bb' and s:
            ps = pb.get((n.a[0], n.a[1], n.stack))
            if ps:
                dead = set()
                for p in ps:
                    dead |= byphi.get(p, set())
                if dead:
                    s = frozenset(x for x in s if x[0] not in dead)
        return s

    def edge(n, t, cd, s):
        if live is not None:
            ok = False
            for i, (q, c2) in enumerate(n.succ):
                if q is t and c2 is cd and (n, i) in live.edges:
                    ok = True
            if not ok:
                return None
        if cd is not None and keep(cd[0]):
            # contradictory path
            if (cd[0], not cd[1]) in s:
                return None
            return s | {cd}
        return s
    return forward(g, frozenset(), tr, lambda a, b: a & b, edge)


def truth(c, pol):
    """normalise (condition, polarity) to a positive form"""
    if c.k == 'not':
        return truth(c.a[0], not pol)
    if c.k == 'cmp' and not pol:
        m = mknot(c)
        if m.k == 'cmp':
            return m, True
    return c, pol
