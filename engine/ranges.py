"""Proving inequalities between terms: constant and member bounds, branch
conditions, value choices (phi, select) and ranges of random draws."""
from fractions import Fraction
from model import *
from absint import block_of
from typestate import phis_by_block
from guards import must_conds

RND9 = 9        # |normal variate| of a 64-bit Box-Muller transform is below 9


def num(t):
    if t.k in ('c', 'fc') and isinstance(t.a[0], (int, float)):
        v = t.a[0]
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Fraction(v)
    return None


def add(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def lin(t):
    """polynomial {monomial: Fraction} of an integer or real term"""
    c = num(t)
    if c is not None:
        return {(): c} if c else {}
    if t.k == 'cast':
        return lin(t.a[1])
    if t.k == 'op':
        o = t.a[0]
        if o in ('add', 'fadd'):
            return add(lin(t.a[1]), lin(t.a[2]))
        if o in ('sub', 'fsub'):
            return add(lin(t.a[1]), lin(t.a[2]), -1)
        if o == 'fneg':
            return add({}, lin(t.a[1]), -1)
        if o in ('mul', 'fmul'):
            x, y = lin(t.a[1]), lin(t.a[2])
            r = {}
            for k1, v1 in x.items():
                for k2, v2 in y.items():
                    k = tuple(sorted(k1 + k2, key=lambda q: q.n))
                    r[k] = r.get(k, 0) + v1 * v2
            return {k: v for k, v in r.items() if v}
        if o == 'shl' and t.a[2].k == 'c':
            return {k: v * (1 << t.a[2].a[0])
                    for k, v in lin(t.a[1]).items()}
    if t.k == 'call' and t.a[1].startswith('llvm.fmuladd'):
        return lin(mk('op', 'fadd', mk('op', 'fmul', t.a[2], t.a[3]),
                      t.a[4]))
    return {(t,): Fraction(1)}


def const(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def ge(x, y):
    """polynomial that is >= 0 iff x >= y"""
    return add(lin(x), lin(y), -1)


NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'olt': 'oge', 'oge': 'olt', 'ogt': 'ole', 'ole': 'ogt',
       'eq': 'ne', 'ne': 'eq', 'oeq': 'une', 'une': 'oeq'}


def facts_of(c, pol, out=None):
    """polynomials known >= 0 when condition c has the given outcome"""
    if out is None:
        out = []
    if c.k == 'not':
        return facts_of(c.a[0], not pol, out)
    if c.k == 'op' and c.a[0] == 'and' and pol or \
            c.k == 'op' and c.a[0] == 'or' and not pol:
        facts_of(c.a[1], pol, out)
        facts_of(c.a[2], pol, out)
        return out
    if c.k == 'sel':
        # a && b, a || b
        if pol and num(c.a[2]) == 0:
            facts_of(c.a[0], True, out)
            facts_of(c.a[1], True, out)
        elif not pol and num(c.a[1]) == 1:
            facts_of(c.a[0], False, out)
            facts_of(c.a[2], False, out)
        return out
    if c.k == 'in':
        vals = c.a[1]
        if pol and len(vals) == 1:
            d = add(lin(c.a[0]), {(): Fraction(vals[0])} if vals[0] else {},
                    -1)
            out += [d, add({}, d, -1)]
        return out
    if c.k != 'cmp':
        return out
    p = c.a[0] if pol else NEG.get(c.a[0])
    x, y = c.a[1], c.a[2]
    if x.k == 'null' or y.k == 'null':
        return out
    d = ge(x, y)
    one = {(): Fraction(1)}
    if p == 'sge' or p in ('oge', 'ogt'):
        out.append(d)
    elif p == 'sgt':
        out.append(add(d, one, -1))
    elif p == 'sle' or p in ('ole', 'olt'):
        out.append(add({}, d, -1))
    elif p == 'slt':
        out.append(add(add({}, d, -1), one, -1))
    elif p in ('eq', 'oeq'):
        out += [d, add({}, d, -1)]
    return out


class Prover:
    def __init__(self, g, bounds=None, rep=None, axioms=()):
        """bounds(term) -> (list of lower bound terms, list of upper bounds)
        rep: value-numbering of loads"""
        self.g = g
        self.bounds = bounds or (lambda t: ((), ()))
        self.rep = rep or {}
        self.axioms = list(axioms)
        self.conds = must_conds(g)
        self.memo = {}
        self.inc = self._incoming()
        self.fmemo = {}
        self.extra = []

    # -- incoming values of phis with the place they come from
    def _incoming(self):
        out = {}
        pb = phis_by_block(self.g)
        for n in self.g.nodes:
            if n.kind != 'bb':
                continue
            key = (n.a[0], n.a[1], n.stack)
            for p in pb.get(key, ()):
                ins = self.g.phi[p.a[0]]['inc']
                L = out.setdefault(p, [])
                for q, cd in n.pred:
                    b = block_of(q)
                    for v, bn in ins:
                        if b is not None and b[1] == bn:
                            L.append((v, q, cd))
        for u, info in self.g.phi.items():
            if info.get('kind') == 'ret':
                out[mk('phi', u)] = [(v, n, None) for v, n in info['inc']]
        return out

    def canon(self, t):
        return subst(t, self.rep) if self.rep else t

    def facts(self, n, cd=None):
        key = (n, cd)
        f = self.fmemo.get(key)
        if f is None:
            f = []
            cs = set(self.conds.get(n) or ())
            if cd is not None:
                cs.add(cd)
            for c, pol in cs:
                facts_of(self.canon(c), pol, f)
            f = [x for x in f if x]
            self.fmemo[key] = f
        return f

    # -- proofs
    def le(self, x, y, n, cd=None, strict=0, extra=()):
        """x + strict <= y at node n"""
        d = add(ge(self.canon(y), self.canon(x)), {(): Fraction(strict)}
                if strict else {}, -1)
        fs = self.facts(n, cd)
        for x in extra:
            for f in fs:
                c = const(add(x, f))
                if c is not None and c < 0:
                    return True         # impossible here
        self.extra = list(extra)
        try:
            return self.nonneg(d, fs + list(extra), frozenset(), 9)
        finally:
            self.extra = []

    def nonneg(self, d, facts, hyp, depth):
        c = const(d)
        if c is not None:
            return c >= 0
        if depth <= 0:
            return False
        key = frozenset(d.items())
        for h in hyp:
            c = const(add(d, dict(h), -1))
            if c is not None and c >= 0:
                return True
        for f in facts:
            c = const(add(d, f, -1))
            if c is not None and c >= 0:
                return True
        if const(add({}, d, -1)) is None and any(
                (const(f) or 0) < 0 for f in facts):
            return True         # impossible path
        for f in self.axioms:
            c = const(add(d, f, -1))
            if c is not None and c >= 0:
                return True
        # loads renamed
        for mon in d:
            for a in mon:
                r = self.rep.get(a)
                if r is not None and r is not a:
                    return self.nonneg(self.repl(d, a, lin(self.canon(r))),
                                       facts, hyp, depth)
        # case splits
        for mon in sorted(d, key=lambda m: [q.n for q in m]):
            for a in mon:
                if a.k == 'sel':
                    c = self.canon(a.a[0])
                    return all(self.nonneg(
                        self.repl(d, a, lin(v)),
                        facts + facts_of(c, pol), hyp, depth - 1)
                        for v, pol in ((a.a[1], True), (a.a[2], False)))
        for mon, k in sorted(d.items(), key=lambda m: [q.n for q in m[0]]):
            if len(mon) != 1:
                continue
            a = mon[0]
            m = self.minmax(a)
            if m is not None:
                up, args = m
                q = any if up == (k > 0) else all
                if q(self.nonneg(self.repl(d, a, lin(v)), facts, hyp,
                                 depth - 1) for v in args):
                    return True
                continue
            lo, hi = self.limits(a)
            for b in (lo if k > 0 else hi):
                if self.nonneg(self.repl(d, a, b), facts, hyp, depth - 1):
                    return True
        # facts in two steps
        if depth > 6:
            for f in facts + self.axioms:
                r = add(d, f, -1)
                if len(r) < len(d) and self.nonneg(r, facts, hyp, depth - 4):
                    return True
        for mon in sorted(d, key=lambda m: [-q.n for q in m]):
            for a in mon:
                if a.k == 'phi' and a in self.inc and self.inc[a]:
                    h2 = hyp | {key}
                    ex = self.extra if not self.cyclic(a) else []
                    for v, n, cd in self.inc[a]:
                        fs = self.facts(n, cd)
                        if ex and any(
                                (const(add(x, f)) or 0) < 0
                                for x in ex for f in fs):
                            continue        # not this way
                        if not self.nonneg(
                                self.repl(d, a, lin(self.canon(v))),
                                fs + ex, h2, depth - 1):
                            break
                    else:
                        return True
        return False

    def cyclic(self, a):
        seen, st = set(), [v for v, _, _ in self.inc[a]]
        while st:
            t = st.pop()
            for q in subterms(t):
                if q is a:
                    return True
                if q.k == 'phi' and q not in seen:
                    seen.add(q)
                    st += [v for v, _, _ in self.inc.get(q, ())]
        return False

    def repl(self, d, a, p):
        out = {}
        for mon, k in d.items():
            if a not in mon:
                out = add(out, {mon: k})
                continue
            i = mon.index(a)
            rest = mon[:i] + mon[i + 1:]
            for m2, k2 in p.items():
                m = tuple(sorted(rest + m2, key=lambda q: q.n))
                out = add(out, {m: k * k2})
        return out

    def minmax(self, a):
        if a.k == 'op' and a.a[0] in ('maxnum', 'minnum'):
            return a.a[0] == 'maxnum', [self.canon(x) for x in a.a[1:]]
        if a.k == 'call' and len(a.a) == 4:
            if a.a[1] in ('fmax', 'llvm.maxnum.f64'):
                return True, [self.canon(x) for x in a.a[2:]]
            if a.a[1] in ('fmin', 'llvm.minnum.f64'):
                return False, [self.canon(x) for x in a.a[2:]]
        return None

    def limits(self, a):
        """(lower bounds, upper bounds) as polynomials"""
        lo, hi = [], []
        if a.k == 'call':
            f = a.a[1]
            args = [self.canon(x) for x in a.a[2:]]
            if f == 'rand_uniform' and len(args) == 2:
                lo.append(lin(args[0]))
                hi.append(lin(args[1]))
            elif f == 'rand_uniform_int' and len(args) == 2:
                lo.append(lin(args[0]))
                hi.append(add(lin(args[1]), {(): Fraction(1)}, -1))
            elif f == 'rand_normal' and len(args) == 2:
                s = num(args[1])
                if s is not None and s >= 0:
                    lo.append(add(lin(args[0]), {(): RND9 * s}, -1))
                    hi.append(add(lin(args[0]), {(): RND9 * s}))
            elif f in ('fabs', 'llvm.fabs.f64', 'exp', 'exp2', 'sqrt',
                       'strlen', 'cJSON_GetArraySize'):
                lo.append({})
        elif a.k == 'ld':
            t = self.table(a.a[0])
            if t is not None:
                lo.append({(): min(t)} if min(t) else {})
                hi.append({(): max(t)} if max(t) else {})
        l2, h2 = self.bounds(a)
        lo += [lin(self.canon(x)) for x in l2]
        hi += [lin(self.canon(x)) for x in h2]
        return lo, hi

    def table(self, addr):
        """values of a constant table, if the index is inside it"""
        if addr.k == 'idx' and addr.a[0].k == 'g':
            g, i = addr.a[0].a[0], addr.a[1]
        elif addr.k == 'idx' and addr.a[0].k == 'idx' and \
                addr.a[0].a[0].k == 'g':
            g, i = addr.a[0].a[0].a[0], addr.a[1]
        else:
            return None
        G = self.g.prog.globals.get(g)
        if G is None or G['init'] is None or G['init'][0] != 'agg' or \
                not G.get('const', True):
            return None
        vals = []
        for v in G['init'][1]:
            x = v[1] if v[0] in ('c', 'f', 'fc', 'i') else None
            if not isinstance(x, (int, float)):
                return None
            vals.append(Fraction(x))
        d1 = lin(self.canon(i))
        if not self.nonneg(d1, [], frozenset(), 4):
            return None
        d2 = add({(): Fraction(len(vals) - 1)}, d1, -1)
        if not self.nonneg(d2, [], frozenset(), 4):
            return None
        return vals


def number_loads(g, kills=None):
    """{vld term: value}: loads of an address are told apart only by the last
    store (or meeting of different stores) that reaches them; a load of what
    a store just wrote is the stored value"""
    from checks.c12 import member
    pb = phis_by_block(g)
    addrs = {n.a[0] for n in g.nodes if n.kind == 'load' and
             n.res is not None and n.res.k == 'vld'}
    mem = {a: member(a) for a in addrs}
    byphi = {}
    for a in addrs:
        for q in subterms(a):
            if q.k == 'phi':
                byphi.setdefault(q, set()).add(a)
    MIX = 'mixed'

    def tr(n, s):
        if any(v == MIX for _, v in s):
            s = frozenset((k, ('m', n.id) if v == MIX else v) for k, v in s)
        if n.kind == 'store':
            A = n.a[0]
            m = member(A)
            d = dict(s)
            for k in addrs:
                if k is A:
                    d[k] = ('s', n.id)
                elif m is None or mem[k] == m:
                    d[k] = ('k', n.id)
            return frozenset(d.items())
        if n.kind in ('call', 'vcall'):
            if n.kind == 'vcall' or kills is None or kills(n):
                return frozenset((k, ('k', n.id)) for k in addrs)
            return s
        if n.kind == 'bb':
            ps = pb.get((n.a[0], n.a[1], n.stack))
            if ps:
                dead = set()
                for p in ps:
                    dead |= byphi.get(p, set())
                if dead:
                    d = dict(s)
                    for k in dead:
                        d[k] = ('p', n.id)
                    return frozenset(d.items())
        return s

    def join(a, b):
        if a == b:
            return a
        x, y = dict(a), dict(b)
        return frozenset((k, x[k] if x[k] == y[k] else MIX) for k in x)
    st = forward(g, frozenset((k, 'entry') for k in addrs), tr, join)
    first, rep = {}, {}
    for n in g.nodes:
        if n.kind == 'load' and n.res is not None and n.res.k == 'vld' and \
                st[n] is not None:
            ver = dict(tr(n, st[n]))[n.a[0]]
            if isinstance(ver, tuple) and ver[0] == 's':
                v = g.nodes[ver[1]].a[1]
                if v.k != 'undef':
                    rep[n.res] = v
                    continue
            k = (n.a[0], ver)
            if k in first:
                rep[n.res] = first[k]
            else:
                first[k] = n.res
    out = {}
    for k in rep:
        v, seen = rep[k], {k}
        for _ in range(20):
            w = subst(v, {a: b for a, b in rep.items()
                          if a is not k and b is not v})
            if w is v or k in subterms(w):
                break
            v = w
        out[k] = v
    return out
