"""C15: mutation and crossover report every alteration."""
from pop import *
from checks.c12 import written, created, base, member
import ir

RULE = ("path-sensitive simulation of every mutate and crossover "
        "implementation: a path that stores to the classifier and does not "
        "prove the stored value equal to the previous one returns true; "
        "results of nested mutate/crossover operations are passed on")

QUIET = ('print', 'save', 'size', 'output', 'general', 'match', 'compute',
         'json_export')


def valued(a, ins):
    if ins.ty == 'ptr':
        return False
    return base(a).k not in ('alloca', 'g')


valued.typed = True

FLAGGED = ('mutate', 'crossover')
# self-adaptive rates are not part of what is reported
OPAQUE = {'sam_adapt', 'sam_init', 'sam_rand'}


# counts of other members
DERIVED = {('Layer', 'n_active')}


ANON = mk('str', 'earlier change')


class St:
    __slots__ = ('hard', 'soft', 'orig', 'cur', 'cond', 'h')

    def __init__(self, hard=False, soft=frozenset(), orig=frozenset(),
                 cur=frozenset(), cond=frozenset()):
        self.hard, self.soft, self.orig = hard, soft, orig
        self.cur, self.cond = cur, cond
        self.h = hash((hard, soft, orig, cur, cond))

    def key(self):
        return self.hard, self.soft, self.orig, self.cur, self.cond

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.key() == o.key()

    def but(self, **k):
        d = dict(hard=self.hard, soft=self.soft, orig=self.orig, cur=self.cur,
                 cond=self.cond)
        d.update(k)
        return St(**d)

    @property
    def clean(self):
        return not self.hard and not self.soft


class Check:
    def __init__(self, prog, f, honest=frozenset()):
        self.prog, self.f = prog, f
        self.honest = honest - {f}
        self.g = Expander(prog, opaque=lambda q: q.name in OPAQUE or
                          q.name in self.honest, vload=valued).expand(f)
        self.compared = set()
        for n in self.g.nodes:
            for _, cd in n.succ:
                if cd:
                    self.compared |= {q for q in subterms(cd[0])
                                      if q.k == 'vld'}
            if n.kind == 'ret' and n.a[0] is not None:
                self.compared |= {q for q in subterms(n.a[0])
                                  if q.k == 'vld'}
        for u, i in self.g.phi.items():
            for v, _ in i.get('inc') or ():
                self.compared |= {q for q in subterms(v) if q.k == 'vld'}
        # originals kept for a comparison or restored
        for n in self.g.nodes:
            if n.kind == 'store' and n.a[1].k == 'vld':
                self.compared.add(n.a[1])
        self.retphi = {}
        for u, i in self.g.phi.items():
            if i.get('kind') == 'ret':
                for v, n in i['inc']:
                    self.retphi.setdefault(n, []).append((mk('phi', u), v))
        self.writes = 0

    # -- transfer
    def step(self, n, st):
        if n.kind == 'load' and n.res is not None and n.res.k == 'vld':
            r = n.res
            if r not in self.compared:
                return st
            A = n.a[0]
            st = self.forget(st, r)
            if A in st.soft:
                return st.but(cur=st.cur | {(A, r)})
            if st.hard:
                return st
            return st.but(orig=st.orig | {r})
        if n.kind == 'vcall':
            kind = n.a[0].split('_impl_')[-1]
            if kind in QUIET:
                return st
            if kind in FLAGGED and n.res is not None:
                st = self.forget(st, n.res)
                return st.but(soft=st.soft | {n.res},
                              cond=st.cond | {(n.res, n.res)})
            return st.but(hard=True)
        if n.kind == 'call' and n.a[0] in OPAQUE:
            return st
        if n.kind == 'call' and n.a[0] in self.honest:
            if n.res is None:
                return st.but(hard=True)
            st = self.forget(st, n.res)
            return st.but(soft=st.soft | {n.res},
                          cond=st.cond | {(n.res, n.res)})
        if n.kind == 'store':
            A, v = n.a[0], n.a[1]
            if created(self.g, A) or base(A).k in ('g', 'alloca') or \
                    member(A) in DERIVED:
                return st
            self.writes += 1
            if v.k == 'vld' and v.a[0] is A and v in st.orig:
                return self.tidy(st.but(soft=st.soft - {A}))
            if v.k == 'vld' and v.a[0] is A and (A, v) in st.cur:
                return st
            cur = frozenset(x for x in st.cur if x[0] is not A)
            if v.k not in ('c', 'fc'):
                cur |= {(A, v)}
            return st.but(soft=st.soft | {A}, cur=cur)
        for a in written(n):
            if created(self.g, a) or base(a).k in ('g', 'alloca'):
                continue
            if n.kind == 'call' and n.a[0] == 'free':
                continue
            self.writes += 1
            return st.but(hard=True)
        for p, v in self.retphi.get(n, ()):
            st = self.bind(st, p, v)
        return st

    def forget(self, st, t):
        if any(contains(x, t) for x in st.orig) or \
                any(contains(y, t) for x in st.cur for y in x) or \
                any(contains(y, t) for x in st.cond for y in x):
            hard = st.hard or any(contains(x, t) for x in st.soft)
            st = st.but(
                orig=frozenset(x for x in st.orig if not contains(x, t)),
                cur=frozenset(x for x in st.cur if not contains(x[0], t) and
                              not contains(x[1], t)),
                cond=frozenset(x for x in st.cond if not contains(x[0], t) and
                               not contains(x[1], t)),
                soft=frozenset(x for x in st.soft if not contains(x, t)),
                hard=hard)
        elif any(contains(x, t) for x in st.soft):
            st = st.but(hard=True, soft=frozenset(
                x for x in st.soft if not contains(x, t)))
        return st

    def bind(self, st, p, v):
        """p now has the value v"""
        keys = self.implied(v, False, st)
        st = st.but(cond=frozenset(x for x in st.cond if x[0] is not p))
        if keys:
            st = st.but(cond=st.cond | {(p, k) for k in keys})
        return st

    def implied(self, c, pol, st):
        """keys that are unchanged when c has the truth value pol"""
        while c.k in ('not', 'cast'):
            if c.k == 'not':
                c, pol = c.a[0], not pol
            else:
                c = c.a[-1]
        out = set()
        if not pol:
            out |= {k for t, k in st.cond if t is c}
        if c.k == 'cmp':
            op, x, y = c.a
            if op in ('eq', 'ne', 'oeq', 'une', 'ueq', 'one'):
                same = (op in ('eq', 'oeq', 'ueq')) == pol
                for p, q in ((x, y), (y, x)):
                    if q.k == 'c' and q.a[0] == 0:
                        out |= self.implied(p, (op in ('ne', 'une', 'one')) ==
                                            pol, st)
                    if q.k == 'c' and q.a[0] == 1 and p.k != 'c':
                        out |= self.implied(p, (op in ('eq', 'oeq')) == pol,
                                            st)
                    if same and p in st.orig:
                        out |= {A for A, v in st.cur if v is q and
                                A is p.a[0]}
        elif c.k == 'op' and c.a[0] in ('or', 'and'):
            if (c.a[0] == 'or') == (not pol):
                for x in c.a[1:]:
                    out |= self.implied(x, pol, st)
        elif c.k == 'sel':
            k, x, y = c.a
            if x.k == 'c' and x.a[0] and not pol:
                out |= self.implied(k, False, st) | self.implied(y, False, st)
            if y.k == 'c' and not y.a[0] and pol:
                out |= self.implied(k, True, st) | self.implied(x, True, st)
            if y.k == 'c' and y.a[0] and not pol:
                out |= self.implied(k, True, st) | self.implied(x, False, st)
        return out

    def impossible(self, c, pol, st):
        """a difference without a change"""
        while c.k == 'not':
            c, pol = c.a[0], not pol
        if c.k != 'cmp' or not st.clean:
            return False
        op, x, y = c.a
        if x.k == 'vld' and y.k == 'vld' and x.a[0] is y.a[0] and \
                (x in st.orig or y in st.orig):
            return (op in ('ne', 'one', 'une')) == pol and \
                op in ('ne', 'one', 'une', 'eq', 'oeq')
        return False

    def tidy(self, st):
        return st.but(cur=frozenset(x for x in st.cur if x[0] in st.soft),
                      cond=frozenset(x for x in st.cond if x[1] in st.soft))

    def edge(self, n, c, pol, st):
        if self.impossible(c, pol, st):
            return None
        k = self.implied(c, pol, st)
        if k:
            st = self.tidy(st.but(soft=st.soft - k))
        k = self.implied(c, not pol, st) & st.soft
        if k:       # known to have changed
            st = self.tidy(st.but(soft=st.soft - k, hard=True))
        return st

    def phis(self, ps, st, b):
        new = {}
        for p in ps:
            for v, bn in self.g.phi[p.a[0]].get('inc') or ():
                if b is not None and bn == b[1]:
                    new[p] = self.implied(v, False, st)
        # addresses of the previous round lose their name
        K = {k for k in st.soft if any(contains(k, p) for p in ps)}
        if K:
            if ANON in st.soft:
                K.add(ANON)
            by = {}
            for t, k in st.cond:
                by.setdefault(t, set()).add(k)
            new.update((t, ks) for t, ks in by.items()
                       if not any(contains(t, p) for p in ps))
            add = {(t, ANON) for t, ks in new.items() if K <= ks}
            add |= {(t, k) for t, ks in new.items() for k in ks - K}
            st = st.but(soft=(st.soft - K) | {ANON}, cond=frozenset(
                x for x in st.cond if x[1] not in K))
        else:
            add = {(t, k) for t, ks in new.items() for k in ks}
        for p in ps:
            st = self.forget(st, p)
        add = {x for x in add if x[1] in st.soft}
        return st.but(cond=st.cond | add) if add else st

    def norm(self, st):
        """loop heads: what is pending is a change"""
        if not st.soft and not st.orig and not st.cond and not st.cur:
            return st
        keep = frozenset(x for x in st.cond if x[0].k == 'phi')
        soft = frozenset(k for k in st.soft if any(c[1] is k for c in keep))
        return St(st.hard or bool(st.soft - soft), soft, frozenset(),
                  frozenset(), keep)

    def run(self):
        e = Esp(self.g, St(), self.step, self.edge, self.phis, cap=600,
                norm=self.norm, extra=[q for n in self.g.nodes
                                       if n.kind == 'ret' and
                                       n.a[0] is not None
                                       for q in subterms(n.a[0])
                                       if q.k == 'phi'])
        bad = None
        for n in self.g.nodes:
            if n.kind != 'ret' or n.stack:
                continue
            v = n.a[0]
            for st in e.states.get(n, ()):
                if st.clean:
                    continue
                env = e.env(n, st)
                x = e.ev(v, env) if v is not None else 0
                if x in ('nz', 'pos') or isinstance(x, int) and x:
                    continue
                if x is None:
                    st2 = self.edge(n, v, False, st)
                    if st2 is None or st2.clean:
                        continue
                bad = (n, st, x)
        return bad, e


def helpers(prog, roots):
    """functions returning a flag that is set whenever they alter something"""
    order, seen = [], set()

    def visit(f):
        if f in seen or f not in prog.funcs or not names.own(prog.funcs[f]) \
                or f in OPAQUE:
            return
        seen.add(f)
        for c in sorted(set(names.callees(prog.funcs[f]))):
            visit(c)
        order.append(f)
    for r in sorted(roots):
        visit(r)
    honest = set()
    for f in order:
        F = prog.funcs[f]
        if f in roots or names.fsig(F)[0] not in ('i1', 'i8', 'i32') or \
                'ptr' not in F.argtypes:
            continue
        try:
            c = Check(prog, f, frozenset(honest))
            bad, e = c.run()
        except Overflow:
            continue
        alters = c.writes or any(
            n.kind == 'call' and n.a[0] in honest or n.kind == 'vcall' and
            n.a[0].split('_impl_')[-1] in FLAGGED for n in c.g.nodes)
        if not bad and alters:
            honest.add(f)
    return frozenset(honest)


def decide(prog, f, honest):
    """(check, counterexample); helpers are inlined if that is needed"""
    first = None
    for h in (honest, frozenset()):
        try:
            c = Check(prog, f, h)
            bad, e = c.run()
        except Overflow:
            continue
        if not bad:
            return c, None
        first = first or (c, bad)
    if first is None:
        raise ir.AnalysisError("too many states in " + f)
    return first


def run(R):
    prog = ir.load()
    todo = {}
    for v, (ty, slots) in sorted(vtables(prog).items()):
        for nm, f in sorted(slots.items()):
            if f and nm.split('_impl_')[1] in FLAGGED:
                todo.setdefault(f, []).append('%s.%s' % (v, nm))
    for f in ('cl_mutate', 'cl_crossover'):
        if f not in prog.funcs:
            raise ir.AnalysisError("function %s not found" % f)
        todo[f] = [f]
    R.require('mutation and crossover operations', len(todo), 30)
    honest = helpers(prog, set(todo))
    R.count('flagged helpers', len(honest))
    w = 0
    for f, why in sorted(todo.items()):
        c, bad = decide(prog, f, honest)
        w += c.writes
        where = prog.funcs[f].where()
        msg = None
        if bad:
            n, st, x = bad
            what = sorted(str(s)[:60] for s in st.soft)
            src = [q.loc for q in c.g.nodes if q.kind == 'store' and
                   q.a[0] in st.soft][:1] or \
                [q.loc for q in c.g.nodes if q.kind in ('store', 'vcall') and
                 not (q.kind == 'store' and
                      base(q.a[0]).k in ('g', 'alloca'))][:3]
            msg = ("%s (%s): a path alters the classifier (%s at %s) and %s" %
                   (f, where, ', '.join(what) or 'a store', ', '.join(src),
                    'returns false' if x == 0 else
                    'does not report it in the returned flag'))
        R.obligation("%s reports its alterations" % f, not bad, msg,
                     key=f + ':flag')
    R.count('stores followed', w)
