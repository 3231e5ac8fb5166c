"""C16: evolved and learned values stay inside their permitted range."""
from ranges import *
from checks.c12 import member, base, written, created
import ir, names

RULE = ("interval proof for the last value stored to every ranged member on "
        "every path of every constructor, mutation, crossover, update, resize "
        "and action selection: the value is a constant, a draw, a clamped "
        "value or a copy that provably lies between the limits")

OPAQUE = {'rand_uniform', 'rand_uniform_int', 'rand_normal'}
GROUP = {('Graph', 'tmp_state'): ('Graph', 'state'),
         ('Graph', 'initial_state'): ('Graph', 'state')}
STAR = mk('str', '*')


def sib(A, S, f):
    """load of member f of the structure that ranged address A belongs to"""
    b = A
    while not (b.k == 'fld' and b.a[1] == S):
        b = b.a[0]
    return mk('ld', mk('fld', b.a[0], S, f))


class Spec:
    def __init__(self, lo, hi, kinds, extent=None, grow=False, name=''):
        self.lo, self.hi, self.kinds = lo, hi, kinds
        self.extent, self.grow, self.name = extent, grow, name


def c(v):
    return lambda A, X: [mk('fc', float(v)) if isinstance(v, float) else C(v)]


def sb(S, f, d=0):
    return lambda A, X: [mkop('add', sib(A, S, f), C(d)) if d
                         else sib(A, S, f)]


def xs(*path, d=0):
    def get(A, X):
        out = []
        for x in X:
            t = x
            for S, f in path:
                t = mk('ld', mk('fld', t, S, f))
            out.append(mkop('add', t, C(d)) if d else t)
        return out
    return get


EVO = ('init', 'cover', 'rand', 'mutate', 'crossover', 'update', 'resize')


def fresh_blocks(g):
    """{new block: load of the member it becomes}"""
    out = {}
    for n in g.nodes:
        if n.kind == 'store' and n.a[0].k == 'fld' and \
                n.a[1].k == 'call' and \
                n.a[1].a[1] in ('malloc', 'calloc', 'realloc'):
            out[n.a[1]] = mk('ld', n.a[0])
    return out


def csr_code(prog):
    if not hasattr(prog, 'csr'):
        prog.csr = None
        for f, gd in names.decoder_graphs(prog).items():
            r = names.decode(gd, 'hyperrectangle_csr')
            if isinstance(r, int) and r >= 0:
                prog.csr = r
        if prog.csr is None:
            raise ir.AnalysisError("code of hyperrectangle_csr not found")
    return prog.csr


def codes(prog, root, pred):
    """case values of the switches over a term"""
    g = Expander(prog).expand(root)
    vals = set()
    for n in g.nodes:
        for _, cd in n.succ:
            if cd and cd[0].k == 'in' and cd[1] and pred(cd[0].a[0]):
                vals |= set(cd[0].a[1])
            elif cd and cd[0].k == 'cmp' and cd[0].a[0] == 'eq' and \
                    cd[0].a[2].k == 'c' and pred(cd[0].a[1]):
                vals.add(cd[0].a[2].a[0])
    if not vals or vals != set(range(len(vals))):
        raise ir.AnalysisError("codes of %s not recognised" % root)
    return len(vals)


def specs(prog):
    nf = codes(prog, 'graph_update',
               lambda t: any(member(q.a[0]) == ('Graph', 'function')
                             for q in subterms(t) if q.k == 'ld'))
    na = codes(prog, 'neural_activate', lambda t: t.k == 'arg')
    L = 'Layer'
    S = {
        (L, 'weights'): Spec(c(-10), c(10), EVO, sb(L, 'n_weights')),
        (L, 'biases'): Spec(c(-10), c(10), EVO, sb(L, 'n_biases')),
        (L, 'eta'): Spec(sb(L, 'eta_min'), sb(L, 'eta_max'), EVO),
        (L, 'mu'): Spec(c(1e-12), c(1), EVO),
        (L, 'function'): Spec(c(0), c(na - 1), ('mutate',)),
        (L, 'recurrent_function'): Spec(c(0), c(na - 1), ('mutate',)),
        (L, 'n_outputs'): Spec(c(1), sb(L, 'max_outputs'), ('mutate',),
                               grow=True),
        (L, 'n_filters'): Spec(c(1), sb(L, 'max_outputs'), ('mutate',),
                               grow=True),
        ('PredNLMS', 'eta'): Spec(
            xs(('XCSF', 'pred'), ('ArgsPred', 'eta_min')),
            xs(('XCSF', 'pred'), ('ArgsPred', 'eta')), EVO),
        ('PredNLMS', 'mu'): Spec(c(1e-12), c(1), EVO),
        ('ActInteger', 'action'): Spec(
            c(0), xs(('XCSF', 'n_actions'), d=-1), EVO + ('json_import',)),
        ('ActInteger', 'mu'): Spec(c(1e-12), c(1), EVO),
        ('CondRectangle', 'b1'): Spec(
            xs(('XCSF', 'cond'), ('ArgsCond', 'min')),
            xs(('XCSF', 'cond'), ('ArgsCond', 'max')), ('mutate',)),
        ('CondRectangle', 'b2'): Spec(
            xs(('XCSF', 'cond'), ('ArgsCond', 'min')),
            xs(('XCSF', 'cond'), ('ArgsCond', 'max')), ('mutate',)),
        ('CondEllipsoid', 'center'): Spec(
            xs(('XCSF', 'cond'), ('ArgsCond', 'min')),
            xs(('XCSF', 'cond'), ('ArgsCond', 'max')), ('mutate',)),
        ('CondEllipsoid', 'spread'): Spec(c(1e-300), None, ('mutate',)),
        ('Graph', 'function'): Spec(c(0), c(nf - 1),
                                    EVO + ('json_import',)),
        ('Graph', 'connectivity'): Spec(
            c(0), lambda A, X: [mkop('add', mkop('add', sib(A, 'Graph', 'n'),
                                                 sib(A, 'Graph', 'n_inputs')),
                                     C(-1))], EVO + ('json_import',)),
        ('Graph', 't'): Spec(c(1), sb('Graph', 'max_t'),
                             ('mutate', 'rand', 'cover')),
        ('Graph', 'state'): Spec(c(0), c(1), EVO + ('json_import', 'match',
                                                    'compute')),
        ('Graph', 'tmp_state'): Spec(c(0), c(1), ('match', 'compute')),
        ('Graph', 'initial_state'): Spec(c(0), c(1), EVO + ('json_import', 'match',
                                                            'compute')),
        ('Graph', 'mu'): Spec(c(1e-12), c(1), EVO),
        ('GPTree', 'mu'): Spec(c(1e-12), c(1), EVO),
        ('CondRectangle', 'mu'): Spec(c(1e-12), c(1), EVO),
        ('CondEllipsoid', 'mu'): Spec(c(1e-12), c(1), EVO),
        ('CondTernary', 'mu'): Spec(c(1e-12), c(1), EVO),
    }
    return S


class Check:
    def __init__(self, prog, f, kind, spec, args=()):
        self.prog, self.f, self.kind = prog, f, kind
        self.spec = {m: s for m, s in spec.items() if kind in s.kinds}

        def vl(a, ins):
            if ins.ty == 'ptr':
                return False
            return self.of(a) is not None
        vl.typed = True
        self.mmemo = {}
        self.alias = {}
        self.g = Expander(prog, opaque=OPAQUE, vload=vl).expand(f)
        self.X = {t for n in self.g.nodes for x in n.a if isinstance(x, T)
                  for t in subterms(x) if t.k == 'arg'}
        self.alias = fresh_blocks(self.g)
        self.mmemo = {}
        self.untrusted = set()
        if kind == 'mutate' and ('CondRectangle', 'b2') in self.spec:
            self.csr = csr_code(prog)
        self.stores = [n for n in self.g.nodes if n.kind == 'store' and
                       self.of(n.a[0]) is not None]

    def of(self, a):
        if a in self.mmemo:
            return self.mmemo[a]
        m = member(self.real(a))
        r = m if m in self.spec else None
        # the buffer of a member, not the pointer variable itself
        if r and a.k == 'fld' and self.isptr(m):
            r = None
        self.mmemo[a] = r
        return r

    def real(self, a):
        """address inside a new block that becomes the buffer of a member"""
        if self.alias and member(a) is None:
            return subst(a, self.alias)
        return a

    def group(self, m):
        return GROUP.get(m, m)

    def isptr(self, m):
        names_ = self.prog.fieldnames[m[0]]
        ty = self.prog.structs[m[0]][1]
        try:
            return ty[names_.index(m[1])] == 'ptr'
        except (ValueError, KeyError, TypeError):
            return False

    def limit(self, A, which):
        A = self.real(A)
        s = self.spec[self.of(A)]
        f = s.lo if which == 'lo' else s.hi
        if f is None:
            return None
        return f(A, self.xargs())

    def xargs(self):
        return [t for t in self.X if t.a and t.a[0] == 0] or \
            list(self.X)[:1]

    def bounds(self, t):
        if t.k == 'vld' and t not in self.untrusted:
            m = self.of(t.a[0])
            if m is not None:
                lo, hi = self.limit(t.a[0], 'lo'), self.limit(t.a[0], 'hi')
                return lo or (), hi or ()
        if t.k == 'arg' and self.kind == 'cover' and \
                self.f.startswith('act') and t.a[0] == 3:
            return [C(0)], xs(('XCSF', 'n_actions'), d=-1)(None, self.xargs())
        if t.k == 'ld' and t.a[0].k == 'fld':
            # ordered pairs of limits
            fl = t.a[0]
            S, q = fl.a[1], fl.a[2]

            def o(nm):
                return mk('ld', mk('fld', fl.a[0], S, nm))
            if S == 'Layer' and q == 'eta_max':
                return [o('eta_min')], ()
            if S == 'Layer' and q == 'eta_min':
                return (), [o('eta_max')]
            if S == 'ArgsPred' and q == 'eta':
                return [o('eta_min')], ()
            if S == 'ArgsCond' and q == 'max':
                return [o('min')], ()
            if S == 'ArgsCond' and q == 'min':
                return (), [o('max')]
            if S == 'Layer' and q == 'max_outputs':
                return [C(1)], ()
            if S == 'Graph' and q in ('max_t', 'n'):
                return [C(1)], ()
            if S == 'ArgsDGP' and q == 'max_t':
                return [C(1)], ()
            if q in ('n_inputs', 'n_actions', 'x_dim'):
                return [C(1)], ()
        return (), ()

    def ok(self, v, A, n, P, extra=()):
        """(lower bound proved, upper bound proved) of value v at node n"""
        lo, hi = self.limit(A, 'lo'), self.limit(A, 'hi')
        if v.k == 'vld' and v not in self.untrusted and \
                self.group(self.of(v.a[0])) == self.group(self.of(A)):
            return True, True
        r = []
        if self.of(A) == ('CondRectangle', 'b2'):
            # a spread for one representation, a corner for the other
            for t in xs(('XCSF', 'cond'), ('ArgsCond', 'type'))(
                    A, self.xargs()):
                k = C(self.csr)
                if P.le(t, k, n) and P.le(k, t, n):
                    lo, hi = [mk('fc', 1e-300)], None
        for b, up in ((lo, False), (hi, True)):
            if b is None:
                r.append(True)
                continue
            r.append(any(P.le(v, y, n, extra=extra) if up else
                         P.le(y, v, n, extra=extra) for y in b))
        return tuple(r)

    def run(self):
        g = self.g
        if not self.stores and not any(
                n.kind == 'call' and n.a[0].startswith('llvm.mem') or
                n.kind == 'ret' for n in g.nodes):
            return []
        rep = number_loads(g, kills=lambda n: n.a[0] not in OPAQUE and
                           not n.a[0].startswith('llvm.') and
                           n.a[0] in self.prog.funcs)
        P = self.P = Prover(g, self.bounds, rep)
        pb = phis_by_block(g)
        ls = loops(g)
        verdict = {}
        while True:
            for n in self.stores:
                A, v = n.a[0], n.a[1]
                s = self.spec[self.of(A)]
                v2 = P.canon(v)
                if s.grow and not any(q.k == 'vld' and q.a[0] is A
                                      for q in subterms(v2)):
                    verdict[n] = (True, True)
                elif s.grow and v2.k == 'vld' and v2.a[0] is A:
                    verdict[n] = (True, True)
                else:
                    verdict[n] = self.ok(v2, A, n, P)
                    if not all(verdict[n]) and v.k == 'vld':
                        verdict[n] = self.ok(v, A, n, P)
            # the parts of one layer grow together
            grown = {}
            for n in self.stores:
                if self.spec[self.of(n.a[0])].grow:
                    v = P.canon(n.a[1])
                    old = [q for q in subterms(v) if q.k == 'vld' and
                           q.a[0] is n.a[0]]
                    for o in old:
                        d = frozenset(add(lin(v), lin(o), -1).items())
                        grown.setdefault((self.of(n.a[0]), d), []).append(n)
            for (m, d), ns in grown.items():
                if any(all(verdict[n]) and self.part(n) for n in ns):
                    for n in ns:
                        if self.part(n):
                            verdict[n] = (True, True)
            cover = self.covering(ls, verdict, pb)
            st = self.flow(P, verdict, pb, cover)
            new = set()
            for n in g.nodes:
                if n.kind == 'load' and n.res is not None and \
                        n.res.k == 'vld' and st[n] is not None and \
                        self.of(n.a[0]):
                    for A, lo, hi, eq, w in st[n]:
                        if A is n.a[0] or self.star(A) is \
                                self.star(n.a[0]):
                            new.add(n.res)
                            new.add(rep.get(n.res, n.res))
            if new <= self.untrusted:
                break
            self.untrusted |= new
            P.memo.clear()
        bad = []
        ex = st.get(g.exit) if g.exit in st else None
        for n in g.nodes:
            if n.kind == 'fexit' and not n.stack and st[n]:
                for A, lo, hi, eq, w in st[n]:
                    bad.append((A, lo, hi, w))
        return bad

    def part(self, n):
        a = n.a[0].a[0]
        return a.k == 'ld' and a.a[0].k == 'fld' and a.a[0].a[1] == 'Layer'

    def star(self, A):
        if A.k == 'idx':
            return mk('idx', A.a[0], STAR)
        return A

    def flow(self, P, verdict, pb, cover):
        g = self.g

        def tr(n, s):
            if s is None:
                return None
            if n in verdict:
                A, v = n.a[0], P.canon(n.a[1])
                lo, hi = verdict[n]
                s = frozenset(x for x in s if x[0] is not A)
                if not (lo and hi):
                    s |= {(A, lo, hi, frozenset([v]), n)}
                return s
            if n.kind == 'call' and n.a[0].startswith('llvm.mem') and \
                    len(n.a) > 2:
                d = mk('idx', n.a[1], STAR)
                m = member(d)
                if m in self.spec and not n.a[0].startswith('llvm.memset'):
                    src = member(mk('idx', n.a[2], STAR))
                    if self.group(src) == self.group(m):
                        dirty = any(member(x[0]) == src for x in s)
                        if not dirty:
                            return frozenset(x for x in s
                                             if self.star(x[0]) is not d)
                    if self.group(src) != self.group(m):
                        return s | {(d, False, False, frozenset(), n)}
            if n.kind == 'vcall' and s and \
                    n.a[0].split('_impl_')[-1] in EVO:
                # the operation of the component puts its values in range
                return frozenset(x for x in s if not any(
                    isinstance(y, T) and contains(x[0], y)
                    for y in n.a[1:]))
            if n.kind == 'bb' and s:
                ps = pb.get((n.a[0], n.a[1], n.stack))
                if ps:
                    o = set()
                    for A, lo, hi, eq, w in s:
                        if any(contains(A, p) for p in ps):
                            o.add((self.star(A), False, False, frozenset(),
                                   w))
                        else:
                            o.add((A, lo, hi, eq, w))
                    return frozenset(o)
            return s

        def join(a, b):
            d = {}
            for x in list(a) + list(b):
                k = x[0]
                if k in d:
                    y = d[k]
                    d[k] = (k, x[1] and y[1], x[2] and y[2], x[3] & y[3],
                            y[4])
                else:
                    d[k] = x
            return frozenset(d.values())

        def edge(n, t, cd, s):
            P_ = self.P
            if s and (n, t) in cover:
                cl = cover[(n, t)]
                s = frozenset(x for x in s if self.star(x[0]) not in cl)
            if cd is not None and s:
                f = facts_of(P_.canon(cd[0]), cd[1])
                if f:
                    o = set()
                    for A, lo, hi, eq, w in s:
                        for v in eq:
                            if lo and hi:
                                break
                            l2, h2 = self.ok(v, A, n, P_, f)
                            lo, hi = lo or l2, hi or h2
                        if not (lo and hi):
                            o.add((A, lo, hi, eq, w))
                    s = frozenset(o)
            return s
        return forward(g, frozenset(), tr, join, edge)

    def covering(self, ls, verdict, pb):
        """loop exit edges after which every element of a buffer was stored
        in range"""
        g = self.g

        def tr(n, s):
            if s is None:
                return None
            if n in verdict:
                A = n.a[0]
                s = frozenset(x for x in s if x is not A)
                if all(verdict[n]):
                    s |= {A}
                return s
            if n.kind == 'bb' and s:
                ps = pb.get((n.a[0], n.a[1], n.stack))
                if ps:
                    return frozenset(x for x in s if not any(
                        contains(x, p) for p in ps))
            return s
        st = forward(g, frozenset(), tr, lambda a, b: a & b)
        out = {}
        for L in ls:
            t = trip(g, lambda x: x, L)
            if not t or t[0] != 'count' or t[2] != 1 or t[3] != 'slt' or \
                    num(t[1]) != 0:
                continue
            latches = [p for p, _ in L.header.pred if p in L.nodes]
            sets = [tr(p, st[p]) for p in latches if st[p] is not None]
            if not sets:
                continue
            m = frozenset.intersection(*sets)
            cl = set()
            for A in m:
                if A.k != 'idx' or A.a[1].k != 'phi':
                    continue
                info = g.phi.get(A.a[1].a[0])
                if not info or info.get('kind') != 'ind':
                    continue
                s = self.spec[self.of(A)]
                if s.extent is not None and not any(
                        poly(self.P.canon(t[4])) == poly(self.P.canon(e))
                        for e in s.extent(A, self.xargs())):
                    continue
                cl.add(self.star(A))
            if cl:
                for n, s_, cd in L.exits:
                    if cd is not None and any(
                            q.k == 'phi' for q in subterms(cd[0])):
                        out.setdefault((n, s_), set()).update(cl)
        return out


def check(prog, R):
    S = specs(prog)
    vt = model_vtables(prog)
    done = {}
    members = {}
    for (slot, fs) in sorted(vt.items()):
        kind = slot.split('_impl_')[-1]
        for f in sorted(fs):
            if f not in prog.funcs or (f, kind) in done:
                continue
            if not any(kind in s.kinds for s in S.values()):
                continue
            done[f, kind] = 1
            K = Check(prog, f, kind, S)
            bad = K.run()
            seen = {}
            for n in K.stores:
                seen.setdefault(K.of(n.a[0]), []).append(n)
            R.count('stores to ranged members', len(K.stores))
            for A, lo, hi, w in bad:
                seen.setdefault(member(A), [])
            for m in sorted(seen):
                b = [x for x in bad if member(x[0]) == m]
                members.setdefault(m, set()).add(f)
                msg = None
                if b:
                    A, lo, hi, w = b[0]
                    msg = ("%s (%s) can leave %s.%s %s its limit: value %s "
                           "stored at %s" % (
                               f, kind, m[0], m[1],
                               'below' if not lo else 'above',
                               show(w.a[1]) if w.kind == 'store' else
                               'copied', w.loc))
                R.obligation('%s:%s.%s' % (f, m[0], m[1]), not b, msg)
    R.count('operations', len(done))
    R.require('ranged members seen', len(members), 15)
    connections(prog, R, vt)
    rates(prog, R)
    trees(prog, R, vt)
    actions(prog, R, vt)


def model_vtables(prog):
    out = {}
    for g, (st, slots) in vtables(prog).items():
        for s, f in slots.items():
            if f:
                out.setdefault('%s.%s' % (st, s), set()).add(f)
    return out


PENDING = ('N', 'I', 'W', 'P', 'U')


class Connections:
    """no disabled connection has a weight: what is stored last to a weight
    and its flag on every path is zero, or the flag is set, or both come from
    one connection"""

    def __init__(self, prog, f):
        self.g = g = Expander(prog, opaque=OPAQUE).expand(f)
        self.alias = fresh_blocks(g)
        self.P = None
        self.writes = 0

    def el(self, a):
        if a.k != 'idx':
            return None
        p = subst(a.a[0], self.alias) if self.alias else a.a[0]
        i = a.a[1]
        if p.k == 'idx':
            p, i = p.a[0], mkop('add', p.a[1], i)
        if p.k == 'ld' and p.a[0].k == 'fld' and p.a[0].a[1] == 'Layer' and \
                p.a[0].a[2] in ('weights', 'weight_active'):
            return (p.a[0].a[2] == 'weights', p.a[0].a[0], poly(i),
                    a.a[0] is not p and self.alias.get(a.a[0]) is p, i)
        return None

    def key(self, e):
        return e[1], e[2], e[3]

    def active(self, s, e):
        return ('f', e[1], e[2]) in s

    def run(self):
        g = self.g
        pb = phis_by_block(g)
        ls = loops(g)
        idx = {}

        def fact(c, pol, add_):
            if c.k == 'not':
                return fact(c.a[0], not pol, add_)
            if c.k == 'cmp' and c.a[0] in ('ne', 'eq') and \
                    num(c.a[2]) == 0:
                return fact(c.a[1], pol == (c.a[0] == 'ne'), add_)
            if c.k == 'op' and c.a[0] == 'and' and pol:
                if num(c.a[2]) == 1:
                    return fact(c.a[1], pol, add_)
                fact(c.a[1], True, add_)
                return fact(c.a[2], True, add_)
            if c.k == 'sel' and pol and num(c.a[2]) == 0:
                fact(c.a[0], True, add_)
                return fact(c.a[1], True, add_)
            if c.k == 'ld' and pol:
                e = self.el(c.a[0])
                if e is not None and not e[0]:
                    add_(e)

        P = Prover(g)

        def guarded(v, e, n, seen=()):
            """zero, or chosen where the connection is known to be enabled"""
            if num(v) == 0:
                return True
            hit = []

            def note(x):
                hit.append(x[1] is e[1] and x[2] == e[2])
            for c_, pol in P.conds.get(n) or ():
                fact(c_, pol, note)
            if any(hit):
                return True
            if v.k == 'sel':
                for x, pol in ((v.a[1], True), (v.a[2], False)):
                    del hit[:]
                    fact(v.a[0], pol, note)
                    if not any(hit) and not guarded(x, e, n, seen):
                        return False
                return True
            if v.k == 'phi' and v not in seen and P.inc.get(v):
                for x, m, cd in P.inc[v]:
                    del hit[:]
                    if cd is not None:
                        fact(cd[0], cd[1], note)
                    if not any(hit) and not guarded(x, e, m, seen + (v,)):
                        return False
                return True
            return False

        def uses(k, ps):
            return any(contains(t, p) for p in ps
                       for mon, _ in k[1] for t in mon) or \
                any(contains(k[0], p) for p in ps)

        def tr(n, s):
            if n.kind == 'store':
                e = self.el(n.a[0])
                if e is None:
                    return s
                self.writes += 1
                k, v = self.key(e), n.a[1]
                d = {x: y for x, y in s}
                old = d.get(k, (None, None, None))
                src = self.el(v.a[0]) if v.k == 'ld' else None
                if e[0]:
                    if num(v) == 0:
                        new = 'Z', None
                    elif guarded(v, e, n):
                        new = 'G', None
                    elif old[0] == 'A' or d.get(('f',) + k[:2]):
                        new = 'A', None
                    elif src is not None and src[0]:
                        new = ('C', None) if old[0] == 'P' and \
                            old[1] == self.key(src) else \
                            ('W', self.key(src))
                    else:
                        new = 'N', None
                else:
                    if num(v) is not None and num(v) != 0:
                        new = 'A', None
                    elif num(v) == 0:
                        new = ('Z', None) if old[0] == 'Z' else ('I', None)
                    elif src is not None and not src[0]:
                        new = ('C', None) if old[0] == 'W' and \
                            old[1] == self.key(src) else \
                            ('P', self.key(src))
                    elif old[0] == 'Z':
                        new = 'Z', None
                    else:
                        new = 'U', None
                    d.pop(('f',) + k[:2], None)
                d[k] = new + (n,)
                return frozenset(d.items())
            if n.kind == 'call' and n.a[0].startswith('llvm.mem') and \
                    len(n.a) > 2:
                e = self.el(mk('idx', n.a[1], C(0)))
                if e is not None and not n.a[0].startswith('llvm.memset'):
                    src = self.el(mk('idx', n.a[2], C(0)))
                    # whole buffers are copied in pairs (see C03)
                    if src is None:
                        d = dict(s)
                        d[(e[1], 'all', e[3])] = ('N', None, n)
                        return frozenset(d.items())
            if n.kind == 'bb' and s:
                ps = pb.get((n.a[0], n.a[1], n.stack))
                if ps:
                    d = {}
                    for k, y in s:
                        if k[0] == 'f':
                            if not uses(k[1:], ps):
                                d[k] = y
                        elif k[1] == 'all' or not uses(k, ps):
                            d.setdefault(k, y)
                        elif y[0] in PENDING:
                            d[(k[0], 'all', k[2])] = y
                    return frozenset(d.items())
            return s

        def join(a, b):
            if a == b:
                return a
            x, y = dict(a), dict(b)
            d = {}
            for k in set(x) | set(y):
                u, w = x.get(k), y.get(k)
                if u is None or w is None:
                    z = u or w
                    if k[0] != 'f' and z[0] in PENDING:
                        d[k] = z
                elif k[0] == 'f':
                    d[k] = u
                elif u[0] in PENDING:
                    d[k] = u if w[0] not in PENDING or u[2].id <= w[2].id \
                        else w
                elif w[0] in PENDING:
                    d[k] = w
                else:
                    d[k] = u if u[:2] == w[:2] else ('G', None, u[2])
            return frozenset(d.items())
        cover = {}

        def edge(n, t, cd, s):
            if (n, t) in cover:
                cl = cover[(n, t)]
                s = frozenset((k, y) for k, y in s if not (
                    k[0] != 'f' and y[0] in PENDING and
                    (k[0], k[2]) in cl))
            if cd is not None:
                fs = []
                fact(cd[0], cd[1], lambda e: fs.append(('f', e[1], e[2])))
                if fs:
                    s = frozenset(dict(list(s) +
                                       [(f, True) for f in fs]).items())
            return s
        for _ in range(3):
            st = forward(g, frozenset(), tr, join, edge)
            before = dict(cover)
            for L in ls:
                t = trip(g, lambda x: x, L)
                if not t or t[0] != 'count' or t[2] != 1 or \
                        t[3] != 'slt' or num(t[1]) != 0:
                    continue
                lat = [p for p, _ in L.header.pred if p in L.nodes and
                       st[p] is not None]
                if not lat:
                    continue
                good = None
                for p in lat:
                    s = tr(p, st[p])
                    q = {k for k, y in s if k[0] != 'f' and
                         y[0] not in PENDING and k[1] != 'all'}
                    good = q if good is None else good & q
                cl = set()
                for b, pi, fr in good:
                    vs = [m for m, c_ in pi]
                    if len(vs) != 1 or len(vs[0]) != 1 or \
                            vs[0][0].k != 'phi':
                        continue
                    info = g.phi.get(vs[0][0].a[0])
                    if info and info.get('kind') == 'ind' and \
                            poly(t[4]) == poly(mk('ld', mk(
                                'fld', b, 'Layer', 'n_weights'))):
                        cl.add((b, fr))
                if cl:
                    for n, s_, cd in L.exits:
                        if cd is not None and any(
                                q.k == 'phi' for q in subterms(cd[0])):
                            cover.setdefault((n, s_), set()).update(cl)
            if cover == before:
                break
        out = []
        for n in g.nodes:
            if n.kind == 'fexit' and not n.stack and st[n]:
                for k, y in st[n]:
                    if k[0] != 'f' and y[0] in PENDING:
                        out.append(y)
        return out


def connections(prog, R, vt):
    n = 0
    for slot in ('init', 'rand', 'mutate', 'update', 'resize'):
        for f in sorted(vt.get('LayerVtbl.layer_impl_' + slot, ())):
            K = Connections(prog, f)
            bad = K.run()
            if not K.writes:
                continue
            n += 1
            msg = None
            if bad:
                y = bad[0]
                msg = "%s (%s): %s at %s" % (
                    f, slot, {'N': 'a weight is set while its connection may '
                              'be disabled',
                              'I': 'a connection is disabled but keeps its '
                              'weight'}.get(y[0], 'the weight and the flag of '
                                            'a connection are not taken from '
                                            'the same connection'), y[2].loc)
            R.obligation('%s:disabled connections' % f, not bad, msg)
    R.require('operations on connections', n, 6)


def rates(prog, R):
    """self-adaptive rates: every store through the rates argument"""
    lo, hi = mk('fc', 1e-12), mk('fc', 1.0)
    for f in ('sam_init', 'sam_adapt'):
        if f not in prog.funcs:
            raise ir.AnalysisError('%s not found' % f)
        K = RateCheck(prog, f)
        bad = K.run()
        R.obligation('%s:rates' % f, not bad and K.stores, bad and
                     "%s can store a mutation rate %s (0, 1]: %s at %s" % (
                         f, 'below' if not bad[0][1] else 'above',
                         show(bad[0][3].a[1]), bad[0][3].loc) or
                     "%s stores no rate" % f)


class RateCheck(Check):
    def __init__(self, prog, f):
        self.rate = ('', 'mu')
        Check.__init__(self, prog, f, 'rate',
                       {self.rate: Spec(c(1e-12), c(1), ('rate',))})

    def of(self, a):
        return self.rate if a.k == 'idx' and a.a[0].k == 'arg' and \
            a.a[0].a[0] == 0 else None

    def xargs(self):
        return []


class TreeCheck(Check):
    """point mutation keeps the shape of a program tree"""

    def __init__(self, prog, f, nf):
        Check.__init__(self, prog, f, 'mutate', {
            ('GPTree', 'tree'): Spec(c(0), None, ('mutate',))})
        self.nf = nf

    def run(self):
        P = Prover(self.g, lambda t: ((), ()), number_loads(
            self.g, kills=lambda n: n.a[0] not in OPAQUE))
        bad = []
        for n in self.stores:
            A, v = n.a[0], P.canon(n.a[1])
            old = {P.canon(q.res) for q in self.g.nodes if q.kind == 'load'
                   and q.res is not None and q.res.k == 'vld' and
                   q.a[0] is A}
            ok = False
            for o in old:
                term = add(lin(o), lin(C(self.nf)), -1)
                func = add(lin(C(self.nf - 1)), lin(o), -1)
                top = self.tops(A)
                ok = ok or P.le(C(self.nf), v, n, extra=[term]) and \
                    any(P.le(v, y, n, extra=[term]) for y in top) and \
                    P.le(C(0), v, n, extra=[func]) and \
                    P.le(v, C(self.nf - 1), n, extra=[func])
            if not ok:
                bad.append(n)
        return bad

    def tops(self, A):
        out = set()
        for n in self.g.nodes:
            for x in n.a:
                if isinstance(x, T):
                    for q in subterms(x):
                        if q.k == 'fld' and q.a[1] == 'ArgsGPTree':
                            out.add(q.a[0])
        return [mkop('add', mkop('add', mk('ld', mk('fld', a, 'ArgsGPTree',
                                                    'n_constants')),
                                 mk('ld', mk('fld', a, 'ArgsGPTree',
                                             'n_inputs'))), C(self.nf - 1))
                for a in out]


def trees(prog, R, vt):
    nf = codes(prog, 'tree_eval', lambda t: True)
    n = 0
    for slot, fs in sorted(vt.items()):
        if not slot.endswith('_impl_mutate'):
            continue
        for f in sorted(fs):
            K = TreeCheck(prog, f, nf)
            if not K.stores:
                continue
            n += 1
            bad = K.run()
            R.obligation('%s:tree' % f, not bad, bad and
                         "%s stores %s to a node of a program tree at %s: a "
                         "terminal must stay a terminal and a function a "
                         "function" % (f, show(bad[0].a[1]), bad[0].loc)
                         or None)
    R.require('tree mutations', n, 1)


def actions(prog, R, vt):
    n = 0
    for f in sorted(vt.get('ActVtbl.act_impl_compute', ())):
        S = {('ActInteger', 'action'): Spec(
            c(0), xs(('XCSF', 'n_actions'), d=-1), ('compute',))}
        K = Check(prog, f, 'compute', S)
        rep = number_loads(K.g)
        P = Prover(K.g, K.bounds, rep)
        for r in K.g.nodes:
            if r.kind == 'ret' and not r.stack:
                v = r.a[0]
                hi = xs(('XCSF', 'n_actions'), d=-1)(None, K.xargs())
                lo_ok = P.le(C(0), v, r)
                hi_ok = any(P.le(v, y, r) for y in hi)
                n += 1
                R.obligation('%s:action' % f, lo_ok and hi_ok,
                             "%s can return an action %s: %s at %s" % (
                                 f, 'below 0' if not lo_ok else
                                 'that is not below n_actions', show(v),
                                 r.loc))
    R.require('action selections', n, 3)


def run(R):
    prog = ir.load()
    check(prog, R)
