"""C11: sets of a trial are initialised, validated and released in order."""
from pop import *
from guards import truth, must_conds
from checks.c09 import reaches, internal
import ir

RULE = ("typestate of the match, action, previous action and kill sets along "
        "every path of every trial: a set is initialised before use and "
        "released exactly once; after classifiers were removed from the "
        "population no classifier of a set is updated or made a parent or "
        "subsumer before the set is validated; nothing reads classifiers of a "
        "set once the kill set was destroyed")

PROTOCOL = (('xcs_rl_init_trial',),
            ('xcs_rl_init_step', 'xcs_rl_decision', 'xcs_rl_update',
             'xcs_rl_error', 'xcs_rl_end_step'),
            ('xcs_rl_end_trial',))


def origins(g):
    """term -> trial sets a classifier or node may come from"""
    stores = {}
    for n in g.nodes:
        if n.kind == 'store':
            a = n.a[0]
            while a.k == 'idx':
                a = a.a[0]
            if a.k == 'alloca':
                stores.setdefault(a, set()).add(n.a[1])
    memo = {}

    def org(t):
        if t in memo:
            return memo[t]
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == 'phi':
                todo += [v for v, _ in (g.phi.get(x.a[0]) or
                                        {}).get('inc') or ()]
            elif x.k == 'sel':
                todo += x.a[1:]
            elif x.k == 'ld':
                a = x.a[0]
                if a.k == 'fld' and a.a[1:] in (('Clist', 'cl'),
                                                ('Clist', 'next')):
                    todo.append(a.a[0])
                elif a.k == 'fld' and a.a[1:] == ('Set', 'list'):
                    s = setname(a.a[0])
                    if s:
                        out.add(s)
                else:
                    while a.k == 'idx':
                        a = a.a[0]
                    if a.k == 'alloca':
                        todo += stores.get(a, ())
                    elif a.k == 'phi':
                        todo += [mk('ld', v) for v, _ in g.phi[a.a[0]].get(
                            'inc') or ()]
        memo[t] = frozenset(out)
        return memo[t]
    return org


class Life:
    """state: (sets, sizes, pend); sets: name -> U uninitialised, I valid,
    S stale, D dangling, F released, M moved; sizes: loads of pset.size ->
    0 equal to / 1 greater than the current one; pend: numerosity that was
    decremented and not tested yet; safe: classifiers known to be other than
    those that were removed"""

    def __init__(self, g, sets, inits):
        self.g = g
        self.sets = sets
        self.bad = {}
        self.events = 0
        self.org = origins(g)
        self.final = set()
        self.mc = None
        self.cmp = set()
        for n in g.nodes:
            for _, cd in n.succ:
                if cd is None:
                    continue
                vl = {q for q in subterms(cd[0]) if q.k == 'vld' and
                      q.a[0].a[1:] == ('Set', 'size')}
                if len(vl) == 2:
                    self.cmp |= vl
        for i in inits:
            e = Esp(g, (i, frozenset(), None, frozenset()), self.step,
                    self.edge, self.phis)
            if g.exit is not None:
                self.final |= {s[0] for s in e.states.get(g.exit, ())}

    def flag(self, n, s, what, kind):
        self.bad.setdefault((s, kind), "%s %s (%s)" % (s, what, n.loc))

    def stale(self, sets):
        return frozenset((k, 'S' if v == 'I' else v) for k, v in sets)

    def put(self, sets, s, v):
        d = dict(sets)
        d[s] = v
        return frozenset(d.items())

    def step(self, n, st):
        sets, sizes, pend, safe = st
        d = dict(sets)
        if n.kind == 'load':
            a = n.a[0]
            if n.res in self.cmp:
                sa, f = setaddr(a)
                if f == 'size' and sa is not None and setname(sa) == 'pset':
                    sizes = frozenset(x for x in sizes if x[0] is not n.res)
                    return (sets, sizes | {(n.res, 0)}, pend, safe)
            if a.k == 'fld' and a.a[1:] == ('Clist', 'cl'):
                for s in self.org(a.a[0]):
                    if d.get(s) in ('D', 'U', 'M'):
                        self.events += 1
                        self.flag(n, s, {
                            'D': "is read after its classifiers may have "
                                 "been destroyed with the kill set",
                            'U': "is read before it was initialised",
                            'M': "is read after it was moved"}[d[s]], 'read')
            return st
        if n.kind == 'store':
            a, v = n.a
            if a.k == 'fld' and a.a[1] == 'Cl':
                c = a.a[0]
                if fresh(c):
                    return st
                if pend is not None and pend is not a:
                    sets, pend, safe = self.stale(sets), None, frozenset()
                    d = dict(sets)
                for s in self.org(c):
                    if s in d:
                        self.events += 1
                        if d[s] in ('S', 'D') and (s, c) not in safe and (
                                a.a[2] != 'num' or self.grows(v, a)):
                            self.flag(n, s, "is not validated after "
                                      "classifiers were removed from the "
                                      "population, but member %s of its "
                                      "classifiers changes" % a.a[2],
                                      'stale')
                if a.a[2] == 'num':
                    if v.k == 'c' and v.a[0] == 0:
                        sf = self.others(n, c)
                        sf = frozenset((s, x) for s in d for x in sf
                                       if d[s] != 'S' or (s, x) in safe)
                        return (self.stale(sets), sizes, None, sf)
                    if not self.grows(v, a):
                        return (sets, sizes, a, safe)
                return (sets, sizes, pend, safe)
            sa, f = setaddr(a)
            if sa is not None and setname(sa) == 'pset' and f == 'size':
                p = poly(v)
                k = [c for m, c in p if not m]
                if len(p) == 2 and k and k[0] < 0:
                    sizes = frozenset((x, 1) for x, _ in sizes)
                else:
                    sizes = frozenset()
                return (sets, sizes, pend, safe)
            # struct copies: list pointer taken over
            if sa is not None and f == 'list' and setname(sa) in d and \
                    v.k == 'ld' and v.a[0].k == 'fld' and \
                    v.a[0].a[1:] == ('Set', 'list'):
                return self.move(n, setname(sa), setname(v.a[0].a[0]), st)
            return st
        if n.kind == 'call':
            c = n.a[0]
            if c.startswith('llvm.memcpy') or c in ('memcpy', 'memmove'):
                x, y = setname(n.a[1]), setname(n.a[2])
                if x in d and y in d:
                    return self.move(n, x, y, st)
                return st
            if c not in PRIMS:
                return st
            s = setname(n.a[2] if c == 'clset_kill' else n.a[1])
            if s == 'pset' and c == 'clset_add':
                return (sets, frozenset(), pend, safe)
            if s not in d:
                return st
            self.events += 1
            if pend is not None and c != 'clset_add':
                sets, pend, safe = self.stale(sets), None, frozenset()
                d = dict(sets)
            q = d[s]
            if c == 'clset_init':
                if q in ('I', 'S', 'D'):
                    self.flag(n, s, "is initialised again while it still "
                              "holds nodes", 'leak')
                return (self.put(sets, s, 'I'), sizes, pend, safe)
            if q in ('U', 'M'):
                self.flag(n, s, "is %s, but %s" % (
                    "used by " + c, "was not initialised" if q == 'U' else
                    "its list was moved to another set"), c)
            if c == 'clset_add':
                if q == 'D':
                    self.flag(n, s, "is extended after the kill set was "
                              "destroyed", c)
                return (self.put(sets, s, 'I') if q == 'F' else sets, sizes,
                        pend, safe)
            if c == 'clset_validate':
                if q == 'D':
                    self.flag(n, s, "is validated after its classifiers may "
                              "have been destroyed with the kill set", c)
                return (self.put(sets, s, 'I' if q == 'S' else q), sizes,
                        pend, frozenset(x for x in safe if x[0] != s))
            if c == 'clset_free':
                return (self.put(sets, s, 'F'), sizes, pend, safe)
            if c == 'clset_kill':
                sets = frozenset((k, 'D' if v in 'IS' else v)
                                 for k, v in sets if k != s)
                return (sets | {(s, 'F')}, sizes, pend, safe)
        return st

    def move(self, n, x, y, st):
        sets, sizes, pend, safe = st
        d = dict(sets)
        self.events += 1
        if d.get(x) in ('I', 'S', 'D'):
            self.flag(n, x, "is overwritten while it still holds nodes",
                      'leak')
        if d.get(y) in ('U', 'M'):
            self.flag(n, y, "is copied before it was initialised", 'copy')
        d[x] = d.get(y, 'U')
        d[y] = 'M'
        return (frozenset(d.items()), sizes, pend, safe)

    def grows(self, v, a):
        """numerosity increase"""
        p = poly(v)
        own = [c for m, c in p if len(m) == 1 and m[0].k == 'vld' and
               m[0].a[0] is a]
        return bool(own) and own[0] == 1 and all(
            c > 0 for m, c in p)

    def others(self, n, c):
        """classifiers that the conditions on the way to n tell apart
        from c"""
        if self.mc is None:
            self.mc = must_conds(self.g, lambda q: any(
                x.k == 'cmp' and x.a[0] in ('eq', 'ne') for x in (
                    q, q.a[0] if q.k == 'not' else q)))
        out = set()
        for q, pol in self.mc.get(n) or ():
            q, pol = truth(q, pol)
            if pol and q.k == 'cmp' and q.a[0] == 'ne':
                if q.a[1] is c:
                    out.add(q.a[2])
                elif q.a[2] is c:
                    out.add(q.a[1])
        return frozenset(x for x in out if x.k != 'null')

    def phis(self, ps, st, b):
        if not st[3]:
            return st
        return st[:3] + (frozenset(
            x for x in st[3] if not any(contains(x[1], p) for p in ps)),)

    def edge(self, n, c, pol, st):
        c, pol = truth(c, pol)
        if c.k != 'cmp' or not pol:
            return st
        sets, sizes, pend, safe = st
        d = padd(poly(c.a[1]), poly(c.a[2]), -1)
        k = 0
        vl = []
        for m, q in d:
            if not m:
                k = q
            elif len(m) == 1 and m[0].k == 'vld':
                vl.append((m[0], q))
            else:
                return st
        op = c.a[0]
        if len(vl) == 1 and vl[0][0].a[0] is pend and vl[0][1] == 1:
            # numerosity + k OP 0
            if op == 'eq' and k == 0 or op == 'sle' and k == 0 or \
                    op == 'slt' and k == -1:
                return (self.stale(sets), sizes, None, frozenset())
            if op in ('ne', 'sgt') and k == 0 or op == 'sge' and k == -1:
                return (sets, sizes, None, safe)
            return st
        if len(vl) == 2 and k == 0:
            (x, p), (y, q) = vl
            z = dict(sizes)
            if x in z and y in z and p * q == -1:
                if p == -1:
                    x, y = y, x
                # x - y OP 0
                r = {(0, 0): 0, (1, 0): 1, (0, 1): -1}.get((z[x], z[y]))
                if r is None:
                    return st
                ok = {'eq': r == 0, 'ne': r != 0, 'sgt': r > 0,
                      'sge': r >= 0, 'slt': r < 0, 'sle': r <= 0}.get(op)
                if ok is False:
                    return None
                return (sets, frozenset(q for q in sizes
                                        if q[0] not in (x, y)), pend, safe)
        return st


def run(R):
    prog = ir.load()
    fields = prog.fieldnames.get('XCSF') or ()
    sets = [f for f in fields if f in ('mset', 'aset', 'prev_aset', 'kset')]
    R.require('trial sets', len(sets), 4)
    U = frozenset((s, 'U') for s in sets)
    flat = [x for ph in PROTOCOL for x in ph]
    for x in flat + list(PRIMS):
        if x not in prog.funcs:
            raise ir.AnalysisError("function %s not found" % x)
    entry = api(prog) | {'main'}
    nf = ne = 0
    gs = {}

    def graph(n):
        if n not in gs:
            gs[n] = expand(prog, n, lambda q: not reaches2(prog, q))
        return gs[n]

    def report(what, L, where):
        nonlocal ne
        ne += L.events
        for s in sets:
            b = [m for (x, k), m in sorted(L.bad.items()) if x == s]
            R.obligation("%s: %s" % (what, s), not b, "%s (%s): set %s" %
                         (what, where, b[0] if b else ''),
                         key='%s:%s' % (what, s))
    for n in sorted(entry):
        f = prog.funcs.get(n)
        if f is None or n in flat or not reaches2(prog, n):
            continue
        L = Life(graph(n), sets, [U])
        if not L.events:
            continue
        nf += 1
        report(n, L, f.where())
        left = sorted({s for st in L.final for s, v in st
                       if v in ('I', 'S', 'D')})
        R.obligation("%s: released" % n, not left,
                     "%s (%s): returns with %s not released on some path" %
                     (n, f.where(), ', '.join(left)), key=n + ':released')
    R.require('operations that use trial sets', nf, 6)
    # the step-wise interface
    states = {U}

    def apply(n, states):
        L = Life(graph(n), sets, states)
        report('stepwise ' + n, L, prog.funcs[n].where())
        return L.final
    for n in PROTOCOL[0]:
        states = apply(n, states)
    seen = set(states)
    for _ in range(8):
        cur = seen
        for n in PROTOCOL[1]:
            cur = apply(n, cur)
        if cur <= seen:
            break
        seen = seen | cur
    states = seen
    for n in PROTOCOL[2]:
        states = apply(n, states)
    left = sorted({s for st in states for s, v in st if v in ('I', 'S', 'D')})
    R.obligation("stepwise trial: released", not left,
                 "a step-wise trial ends with %s not released" %
                 ', '.join(left), key='stepwise:released')
    R.count('events', ne)


_R2 = {}


def reaches2(prog, n):
    """touches sets or reads classifier lists"""
    if n in _R2:
        return _R2[n]
    _R2[n] = False
    f = prog.funcs.get(n)
    if f is None:
        return False
    r = reaches(prog, n)
    if not r:
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'getelementptr' and 'Clist' in str(i.ty):
                    r = True
    if not r:
        r = any(reaches2(prog, c) for c in names.callees(f)
                if c in prog.funcs)
    _R2[n] = r
    return r
