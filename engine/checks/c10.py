"""C10: the population never exceeds its limit."""
from pop import *
from guards import truth
from checks.c09 import reaches, internal
import ir

RULE = ("path-sensitive typestate of the population against its limit: every "
        "insertion or numerosity increase is followed, on every path to the "
        "end of the operation, by a test or deletion loop that establishes "
        "pset.num <= POP_SIZE, unless it is preceded by a test that leaves "
        "room for it")

RESTORE = ('clset_pset_load',)


class Limit:
    """state: (lt|le|ov|gt, loads of pset.num that are current, numerosity
    cells that are 1, relation phi = pset.num - POP_SIZE + k); gt: unknown"""

    def __init__(self, g, entry, safe, enforcing):
        self.g = g
        self.safe, self.enforcing = safe, enforcing
        self.events = 0
        self.early = set()
        self.esp = Esp(g, (entry, frozenset(), frozenset(), None), self.step,
                       self.edge, self.phis)

    def grow(self, lim, one):
        return 'le' if lim == 'lt' and one else 'gt'

    def step(self, n, st):
        lim, cur, ones, rel = st
        if n.kind == 'load' and n.res is not None and n.res.k == 'vld':
            sa, f = setaddr(n.a[0])
            if sa is not None and f == 'num' and setname(sa) == 'pset':
                return (lim, cur | {n.res}, ones, rel)
            return st
        if n.kind == 'store':
            a, v = n.a
            sa, f = setaddr(a)
            if sa is not None and f == 'num' and setname(sa) == 'pset':
                self.events += 1
                d = self.delta(v, a, cur)
                if d is None or d > 1:
                    lim = 'gt'
                elif d == 1:
                    lim = self.grow(lim, True)
                elif d < 0:
                    if lim != 'ov':
                        self.early.add(n.loc)
                    lim = 'lt' if lim in ('le', 'lt') else 'gt'
                if rel is not None:
                    rel = None if d is None else (rel[0], rel[1] - d)
                return (lim, frozenset(), ones, rel)
            if a.k == 'fld' and a.a[1:] == ('Cl', 'num'):
                ones = ones - {a}
                if v.k == 'c' and v.a[0] == 1:
                    ones = ones | {a}
                return (lim, cur, ones, rel)
            return st
        if n.kind == 'call':
            c = n.a[0]
            if c == 'clset_add' and setname(n.a[1]) == 'pset':
                self.events += 1
                one = mk('fld', n.a[2], 'Cl', 'num') in ones
                return (self.grow(lim, one), frozenset(), ones, None)
            if c in PRIMS:
                s = n.a[2] if c == 'clset_kill' else n.a[1]
                if setname(s) == 'pset' and c != 'clset_validate':
                    return ('le', frozenset(), ones, None)
                if setname(s) == 'pset':
                    return (lim, frozenset(), ones, None)
                return st
            if c in self.enforcing:
                self.events += 1
                return ('le', frozenset(), ones, None)
            if c in RESTORE:
                return ('le', frozenset(), ones, None)
            if c in self.safe:
                self.events += 1
                return ('le' if lim in ('le', 'lt') else 'gt',
                        frozenset(), ones, None)
            if n.res is not None and fresh(n.res):
                return (lim, cur, frozenset(x for x in ones
                                            if not contains(x, n.res)), rel)
        return st

    def delta(self, v, a, cur):
        ok = 0
        k = 0
        for mon, c in poly(v):
            if not mon:
                k = c
            elif len(mon) == 1 and mon[0].k == 'vld' and mon[0].a[0] is a \
                    and mon[0] in cur and c == 1:
                ok += 1
            else:
                return None
        return k if ok == 1 else None

    def edge(self, n, c, pol, st):
        c, pol = truth(c, pol)
        if c.k != 'cmp' or not pol:
            return st
        lim, cur, ones, rel = st
        p, x, y = c.a
        p = p.replace('u', 's', 1) if p[0] == 'u' else p
        d = padd(poly(x), poly(y), -1)     # x - y
        sk = self.excess(d, cur, rel)
        if sk is None:
            return st
        s, k = sk
        if s == -1:     # write as num - POP_SIZE
            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge',
                 'sge': 'sle'}.get(p, p)
            k = -k
        # num - POP_SIZE + k  p  0
        lo = {'sgt': 1 - k, 'sge': -k, 'eq': -k}.get(p)
        if lo is not None and lo >= 1:
            if lim in ('lt', 'le'):
                return None
            return ('ov', cur, ones, rel)
        hi = {'slt': -1 - k, 'sle': -k, 'eq': -k}.get(p)
        if hi is None:
            return st
        if hi <= 0 and lim == 'ov':
            return None
        if hi <= -1:
            return ('lt', cur, ones, rel)
        if hi == 0:
            return ('le' if lim == 'gt' else lim, cur, ones, rel)
        return st

    def excess(self, d, cur, rel):
        """(s, k) with d = s * (pset.num - POP_SIZE) + k"""
        k = s = n = 0
        for mon, q in d:
            if not mon:
                k += q
            elif len(mon) == 1 and mon[0].k == 'vld' and mon[0] in cur:
                s = q
                n += 1
            elif len(mon) == 1 and mon[0].k == 'ld' and \
                    mon[0].a[0].k == 'fld' and \
                    mon[0].a[0].a[1:] == ('XCSF', 'POP_SIZE'):
                if q not in (1, -1):
                    return None
                n += 1
            elif len(mon) == 1 and rel is not None and mon[0] is rel[0] \
                    and len(d) <= 2 and q in (1, -1):
                s, n = q, 2
                k += q * rel[1]
            else:
                return None
        return (s, k) if s in (1, -1) and n == 2 else None

    def phis(self, ps, st, b):
        lim, cur, ones, rel = st
        new = None
        for p in ps:
            for v, bn in self.g.phi[p.a[0]].get('inc') or ():
                if b is not None and bn == b[1]:
                    sk = self.excess(poly(v), cur, rel)
                    if sk is not None and sk[0] == 1:
                        new = (p, sk[1])
        if new is None and rel is not None and rel[0] not in ps:
            new = rel
        return (lim, cur, frozenset(
            x for x in ones if not any(contains(x, p) for p in ps)), new)

    def final(self):
        return {s[0] for s in self.esp.states.get(self.g.exit, ())} \
            if self.g.exit else set()


def run(R):
    prog = ir.load()
    if 'clset_pset_enforce_limit' not in prog.funcs or \
            not prog.fieldnames.get('XCSF') or \
            'POP_SIZE' not in prog.fieldnames['XCSF']:
        raise ir.AnalysisError("population limit not found")
    called = set()
    cg = {}
    for n, f in prog.funcs.items():
        cg[n] = {c for c in names.callees(f) if c in prog.funcs}
        called |= cg[n]
    order, done = [], set()

    def visit(n):
        if n in done:
            return
        done.add(n)
        for c in sorted(cg[n]):
            visit(c)
        order.append(n)
    for n in sorted(prog.funcs):
        visit(n)
    safe, enforcing = set(), set()
    entry = api(prog)
    R.require('operations of the Python interface', len(entry), 20)
    nf = ne = 0
    why = {}
    for n in order:
        f = prog.funcs[n]
        if not names.own(f) or n in PRIMS or n in RESTORE or \
                not reaches(prog, n) or internal(f) and n in called:
            continue
        op = lambda q: q in safe or q in enforcing or q in RESTORE or \
            not reaches(prog, q)
        g = expand(prog, n, op)
        try:
            A = Limit(g, 'le', safe, enforcing)
            B = Limit(g, 'gt', safe, enforcing)
            fin = A.final()
            early = A.early | B.early
            ev = A.events + B.events
        except Overflow as e:
            fin, early, ev = {'gt'}, set(), 1
        if not ev:
            continue
        ok = not fin & {'gt', 'ov'}
        if (not ok or early) and n in called and n not in entry:
            why[n] = f.where()
            R.count('operations judged in their callers', 1)
            continue
        nf += 1
        ne += ev
        if ok:
            safe.add(n)
            if not {'gt', 'ov'} & B.final():
                enforcing.add(n)
        inner = sorted(q for q in why if q in closure(cg, n))
        R.obligation("%s keeps the limit" % n, ok,
                     "%s (%s): on some path the population can be left with "
                     "more than POP_SIZE micro-classifiers%s" %
                     (n, f.where(), '; grown by ' + ', '.join(
                         why[q] for q in inner) if inner else ''),
                     key=n + ':limit')
        R.obligation("%s deletes only above the limit" % n, not early,
                     "%s: the population is reduced although it need not be "
                     "above POP_SIZE (%s)" % (n, ', '.join(sorted(early))),
                     key=n + ':early')
    R.require('operations that change the population', nf, 10)
    R.require('limit-enforcing operations', len(enforcing), 1)
    R.count('events', ne)
    R.obligation("clset_pset_enforce_limit enforces",
                 'clset_pset_enforce_limit' in enforcing,
                 "clset_pset_enforce_limit can return with pset.num above "
                 "POP_SIZE", key='enforce')


def closure(cg, n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        for c in cg[x]:
            if c not in seen:
                seen.add(c)
                st.append(c)
    return seen
