"""Path-sensitive property simulation: explores (node, state) pairs, keeping
the values of flag variables and the outcomes of immutable conditions apart, so
that a flag set on one branch and tested later selects the right path."""
from model import *
from absint import Live, block_of
from typestate import phis_by_block


class Overflow(Exception):
    pass


class Esp:
    def __init__(self, g, init, step, edge=None, phis=None, cap=400,
                 facts=True, norm=None, extra=()):
        """step(node, st) -> st or None or list of st
        edge(node, cond, pol, st) -> st or None
        phis(list of redefined phi terms, st) -> st"""
        self.g = g
        self.step, self.edge, self.onphi = step, edge, phis
        self.facts = facts
        self.norm = norm
        self.pb = phis_by_block(g)
        self.retphi = {}
        for u, info in g.phi.items():
            if info.get('kind') == 'ret':
                for v, n in info['inc']:
                    self.retphi.setdefault(n, []).append((mk('phi', u), v))
        # flags: phis tested by branches, and phis they copy
        self.flags = set()
        st = list(extra)
        for n in g.nodes:
            for s, cd in n.succ:
                if cd:
                    for q in subterms(cd[0]):
                        if q.k == 'phi':
                            st.append(q)
        while st:
            q = st.pop()
            if q in self.flags:
                continue
            info = g.phi.get(q.a[0])
            if not info:
                continue
            vals = [v for v, _ in info.get('inc') or ()]
            if any(v.k in ('c', 'null') for v in vals) or \
                    info.get('kind') == 'ret' or \
                    any(v.k == 'phi' for v in vals):
                self.flags.add(q)
                st += [w for v in vals if v.k in ('phi', 'op', 'cast', 'cmp',
                                                  'not', 'sel')
                       for w in subterms(v) if w.k == 'phi']
        self.states = {}
        self.cap = cap
        self.parent = {}
        self._run(init)

    def ev(self, t, env):
        v = self.ev2(t, env)
        return None if v == 'nn' else v

    def ev2(self, t, env):
        """0, 1, 'pos' (positive), 'nz' (not zero), 'nn' (not negative)"""
        k = t.k
        if k == 'c':
            return t.a[0]
        if k == 'null':
            return 0
        v = env.get(t)
        if v is not None:
            return v
        if k == 'cmp':
            x, y = self.ev2(t.a[1], env), self.ev2(t.a[2], env)
            if 'nn' in (x, y):
                if x == 'nn' and y == 0:
                    return {'sge': 1, 'slt': 0}.get(t.a[0])
                if y == 'nn' and x == 0:
                    return {'sle': 1, 'sgt': 0}.get(t.a[0])
                return None
            if y == 'pos' and isinstance(x, int):
                return self.ev(mk('cmp', SWAP.get(t.a[0], t.a[0]), t.a[2],
                                  t.a[1]), env)
            if x == 'pos' and isinstance(y, int):
                r = {'eq': 0 if y <= 0 else None, 'ne': 1 if y <= 0 else None,
                     'sgt': 1 if y <= 0 else None,
                     'sge': 1 if y <= 1 else None,
                     'slt': 0 if y <= 1 else None,
                     'sle': 0 if y <= 0 else None}.get(t.a[0])
                return r
            if x in ('nz', 'pos') or y in ('nz', 'pos'):
                if t.a[0] in ('eq', 'ne') and (x == 0 or y == 0):
                    return int(t.a[0] == 'ne')
                return None
            return Live.cmp(t.a[0], x, y)
        if k == 'not':
            x = self.ev(t.a[0], env)
            return None if x is None else 0 if x in ('nz', 'pos') else \
                int(not x)
        if k == 'op' and t.a[0] == 'add':
            # counters: 0, 1, more
            x, y = self.ev2(t.a[1], env), self.ev2(t.a[2], env)
            if 'nn' in (x, y):
                o = y if x == 'nn' else x
                if o == 'pos' or isinstance(o, int) and o > 0:
                    return 'pos'
                return 'nn' if o == 'nn' or o == 0 else None
            if x is None or y is None or x == 'nz' or y == 'nz':
                return None
            if x == 'pos' or y == 'pos':
                o = y if x == 'pos' else x
                return 'pos' if o == 'pos' or o >= 0 else None
            return x + y if x + y <= 1 else 'pos'
        if k == 'cast':
            return self.ev2(t.a[1], env)
        if k == 'sel':
            c = self.ev(t.a[0], env)
            if c is None:
                return None
            return self.ev(t.a[1] if c else t.a[2], env)
        if k == 'op' and t.a[0] in ('and', 'or'):
            x, y = self.ev(t.a[1], env), self.ev(t.a[2], env)
            if t.a[0] == 'and':
                if x == 0 or y == 0:
                    return 0
                return 1 if x == 1 and y == 1 else None
            if x == 1 or y == 1:
                return 1
            return 0 if x == 0 and y == 0 else None
        return None

    def immutable(self, t):
        ok = False
        todo = [t]
        while todo:
            q = todo.pop()
            if q.k != 'call':       # a result stays what it is
                todo += [x for x in q.a if isinstance(x, T)]
            if q.k in ('ld', 'vld', 'alloca', 'g', 'op', 'cast', 'sel',
                       'callref'):
                return False
            if q.k == 'phi' and q not in self.flags:
                return False
            if q.k in ('call', 'arg', 'phi'):
                ok = True
        return ok

    def assume(self, c, pol, env):
        """env with the outcome of a branch"""
        while c.k == 'not':
            c, pol = c.a[0], not pol
        if not self.immutable(c):
            return env
        if c.k == 'cmp' and c.a[2].k in ('c', 'null') and \
                c.a[0] in ('eq', 'ne'):
            z = c.a[2].a[0] if c.a[2].k == 'c' else 0
            if (c.a[0] == 'eq') == pol:
                env = dict(env)
                env[c.a[1]] = z
                return env
            if z == 0:
                env = dict(env)
                if c.a[1].k in ('phi', 'call', 'arg'):
                    env[c.a[1]] = 'nz'
                return env
        env = dict(env)
        env[c] = int(pol)
        return env

    def _run(self, init):
        """classic property simulation: one environment per (node, state),
        the facts on which all paths reaching it agree"""
        g = self.g
        envs = self.envs = {(g.entry, init): {}}
        wl = [(g.entry, init)]
        inwl = set(wl)
        order = {n: i for i, n in enumerate(rpo(g))}
        import heapq
        heads = {s for n in order for s, _ in n.succ
                 if order[s] <= order[n]}
        self.heads = heads
        heap = [(order.get(g.entry, 0), 0, wl[0])]
        tick = 0
        self.states.setdefault(g.entry, set()).add(init)
        while heap:
            _, _, key = heapq.heappop(heap)
            if key not in inwl:
                continue
            inwl.discard(key)
            n, st = key
            e = dict(envs[key])
            if n.kind in ('call', 'vcall') and n.res is not None and e:
                for k in [k for k in e if contains(k, n.res)]:
                    del e[k]
            for p, v in self.retphi.get(n, ()):
                x = self.ev2(v, e)
                self._set(e, p, x)
            out = self.step(n, st)
            if out is None:
                continue
            for o in (out if isinstance(out, list) else [out]):
                for s, cd in n.succ:
                    e2, o2 = e, o
                    if cd is not None:
                        v = self.ev(cd[0], e)
                        if v is not None and bool(v) != bool(cd[1]):
                            continue
                        if self.edge is not None:
                            o2 = self.edge(n, cd[0], cd[1], o)
                            if o2 is None:
                                continue
                        if self.facts:
                            e2 = self.assume(cd[0], cd[1], e)
                    if s.kind == 'bb':
                        ps = self.pb.get((s.a[0], s.a[1], s.stack))
                        if ps:
                            b = block_of(n)
                            new = {}
                            for p in ps:
                                x = None
                                if p in self.flags:
                                    for v, bn in g.phi[p.a[0]]['inc']:
                                        if b is not None and bn == b[1]:
                                            x = self.ev2(v, e2)
                                            break
                                new[p] = x
                            e2 = {k: v for k, v in e2.items()
                                  if not any(contains(k, p) for p in ps)}
                            for p, x in new.items():
                                self._set(e2, p, x)
                            if self.onphi is not None:
                                o2 = self.onphi(ps, o2, b)
                    if self.norm is not None and s in heads:
                        o2 = self.norm(o2)
                    k2 = (s, o2)
                    old = envs.get(k2)
                    if old is None:
                        envs[k2] = dict(e2)
                        ss = self.states.setdefault(s, set())
                        ss.add(o2)
                        if len(ss) > self.cap:
                            raise Overflow(s)
                    else:
                        m = {k: v for k, v in old.items()
                             if k in e2 and self._join(e2[k], v) is not None}
                        m = {k: self._join(e2[k], v) for k, v in m.items()}
                        if m == old:
                            continue
                        envs[k2] = m
                    if k2 not in inwl:
                        inwl.add(k2)
                        tick += 1
                        heapq.heappush(heap, (order.get(s, 0), tick, k2))

    def env(self, n, st):
        return self.envs.get((n, st), {})

    @staticmethod
    def _join(x, y):
        if x == y:
            return x
        p = [z == 'pos' or z not in ('nz', 'nn') and z > 0 for z in (x, y)]
        if all(p):
            return 'pos'
        if all(q or z in ('nn', 0) for q, z in zip(p, (x, y))):
            return 'nn'
        if 'nn' in (x, y):
            return None
        if x != 0 and y != 0:
            return 'nz'
        return None

    @staticmethod
    def _set(e, p, x):
        for k in [k for k in e if contains(k, p)]:
            del e[k]
        if x is not None:
            e[p] = x
