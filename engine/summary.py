"""Function summaries as gated value graphs (see vn.py).

A function's inlined graph is walked once in reverse post-order.  Branches
join as decision diagrams over the tests that separate them; loops are closed
by recognising induction variables, list walks, sums, last values and folds.
The summary gives, for every input at once, the returned value, the final
value of every written member and the guarded calls that were made."""
from terms import *
from model import loops, innermost
import vn
from vn import (L, D, ZERO, ONE, num, sym, ite, AND, OR, NOT, simp, add, sub,
                mul, gt, ige, eq, fld, idx, truth, apply, subst, occurs,
                Undecided, NULLV, fnl, refs)
from modref import modref, region as tregion

IGNORED = {'printf', 'puts', 'putchar', 'fprintf', 'free', 'fflush', 'perror',
           'fputs', 'fputc', 'llvm.lifetime.start', 'llvm.lifetime.end'}
ALLOC = {'malloc', 'calloc', 'realloc'}
RNG = ('DSFMT_T', 'w128_t', 'W128_T')
CORE = {'Cl', 'XCSF', 'Set', 'Clist', 'ArgsEA', 'Input'}


def nonneg(d):
    if d.k == 'num':
        return d.a[0] >= 0
    if d.k == 'poly':
        return all(c > 0 and all(nonneg(a) for a, _ in m)
                   for m, c in d.a[0])
    return d.k == 'sym' and (
        d.ty == 'bool' or d.a[0] in ('len', 'iv', 'b') or d.a[0] == 'ld' and d.a[1].k == 'fld' and
        d.a[1].a[1:] in (('Set', 'size'), ('Set', 'num')))


vn.NONNEG[0] = nonneg


def lenof(h):
    if h.k == 'sym' and h.a[0] == 'ld' and h.a[1].k == 'fld' and \
            h.a[1].a[1:] == ('Set', 'list'):
        return sym(('ld', vn._fld(h.a[1].a[0], 'Set', 'size')), 'int')
    return sym(('len', h), 'int')


_peq0 = vn._peq


def _peq(a, b):
    for x, y in ((a, b), (b, a)):
        if vn.nthof(x) and y is NULLV:
            return NOT(vn._ige(vn._sub(vn._sub(lenof(x.a[1]), x.a[3]), ONE)))
    return _peq0(a, b)


vn._peq = _peq


class St:
    __slots__ = ('pc', 'mem', 'ev')

    def __init__(self, pc, mem, ev):
        self.pc, self.mem, self.ev = pc, mem, ev


class Cons:
    __slots__ = ('up', 'd', 'e')

    def __init__(self, up, e):
        self.up, self.e = up, e
        self.d = 1 + (up.d if up is not None else 0)


def push(c, e):
    return Cons(c, e)


def lst(c, stop=None):
    out = []
    while c is not stop and c is not None:
        out.append(c.e)
        c = c.up
    out.reverse()
    return out


def lca(cs):
    cs = list(cs)
    while len(set(map(id, cs))) > 1:
        m = max((c.d if c is not None else 0) for c in cs)
        cs = [c.up if c is not None and c.d == m else c for c in cs]
    return cs[0]


def entguard(e, g):
    if e[0] == 'bar':
        return e
    return (e[0], simp(AND(g, e[1]))) + e[2:]


def entsubst(e, m):
    if e[0] == 'bar':
        return e

    def s(x):
        if isinstance(x, (L, D)):
            return subst(x, m)
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        if isinstance(x, list):
            return [s(y) for y in x]
        return x
    return (e[0],) + tuple(s(x) for x in e[1:])


def entfp(e):
    def f(x):
        if isinstance(x, (L, D)):
            return x.fp
        if isinstance(x, (tuple, list)):
            return tuple(f(y) for y in x)
        if isinstance(x, (set, frozenset)):
            return 'set'
        return x
    return tuple(f(x) for x in e)


def entvals(e):
    out = []

    def f(x):
        if isinstance(x, (L, D)):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                f(y)
    f(e[1:])
    return out


def lregion(A):
    """region of an address leaf"""
    if A.k == 'fld':
        return (A.a[1], A.a[2])
    if A.k == 'idx':
        b = A.a[0]
        while b.k == 'idx':
            b = b.a[0]
        if b.k == 'sym' and b.a[0] in ('ld', 'ldx', 'ldp'):
            q = b.a[1] if b.a[0] == 'ld' else b.a[2]
            if q.k == 'fld':
                return (q.a[1], q.a[2], '[]')
            return lregion(q)
        if b.k == 'fld':
            return (b.a[1], b.a[2], '[]')
        if b.k == 'sym' and b.a[0] == 'arg':
            return ('param', b.a[1])
    return None


def vty(t):
    if t == 'double' or t == 'float':
        return 'real'
    if t in ('i8', 'i1'):
        return 'bool'
    if isinstance(t, str) and t.startswith('i'):
        return 'int'
    if t == 'ptr' or isinstance(t, tuple) and t[0] == 'ptr':
        return 'ptr'
    return 'real'


RNGCELL = vn._fld(sym(('g', 'rng'), 'ptr'), 'rng', 'count')
SIZE = {'real': 8, 'int': 4, 'bool': 1, 'char': 1, 'ptr': 8}


class Summary:
    def __init__(self, prog, fname, opaque=(), facts=None, unroll=False):
        self.unroll = unroll
        self.sized = (facts or {}).get(('Set', 'size')) if unroll else None
        self.prog = prog
        self.fname = fname
        self.facts = facts or {}
        self.mr = modref(prog)
        self.own_ = {}
        op = frozenset(opaque)
        ex = Expander(prog, opaque=lambda f: f.name in op or
                      f.name.startswith(('rand_', 'dsfmt')), vload=lambda a: True,
                      maxnodes=40000)
        g = self.g = ex.expand(fname)
        if g.exit is None:
            raise Undecided("%s does not return" % fname)
        self.env = {}
        self.tm = {}
        self.touched = []
        self.allocs = {}
        self.nalloc = self.nlocal = 0
        self.allocs = {}
        self.dead = []
        self.bars = {}
        self.loopstack = []
        self.uids = {}
        self.care = []
        self.order = rpo(g)
        self.pos = {n: i for i, n in enumerate(self.order)}
        self.loops = loops(g)
        self.hdr = {}
        for l in self.loops:
            self.hdr[l.header] = l
        self.inner = innermost(self.loops)
        self.phis = {}
        self.retphi = {}
        for u, info in g.phi.items():
            t = mk('phi', u)
            if info['kind'] == 'ret':
                n = info['inc'][0][1]
                ex_ = [s for s, _ in n.succ][0]
                self.retphi.setdefault(ex_, []).append((t, info))
                continue
            ins = info['ins']
            inst = info['inst']
            bn = None
            for b in inst.f.blocks:
                if ins in b.ins:
                    bn = b.name
            self.phis.setdefault(g.bbnode[inst.uid, bn], []).append((t, info))
        st = St(ONE, None, None)
        exits, backs = self.region(set(g.nodes), g.entry, [(st, None, None)],
                                   None)
        fin = self.final
        if fin is None:
            raise Undecided("%s never returns" % fname)
        self.st = fin
        self.ret = None
        if g.ret is not None:
            self.ret = simp(self.ev(g.ret))
            rt = self.rettype(fname)
            if rt == 'bool':
                self.ret = truth(self.ret)

    def rettype(self, fname):
        f = self.prog.funcs[fname]
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'ret' and i.a:
                    return vty(i.ty)
        return None

    # ------------------------------------------------------------ terms
    def set(self, t, v):
        self.env[t] = v
        self.touched.append(t)
        self.tm.clear()

    def ev(self, t):
        r = self.tm.get(t)
        if r is None:
            r = self._ev(t)
            self.tm[t] = r
        return r

    def _ev(self, t):
        k, a = t.k, t.a
        if t in self.env:
            return self.env[t]
        if k == 'c':
            return num(a[0])
        if k == 'fc':
            x = a[0]
            if x != x or x in (float('inf'), float('-inf')):
                return sym(('fconst', repr(x)))
            return num(x)
        if k == 'null':
            return NULLV
        if k == 'arg':
            f = self.g.root
            if ('arg', a[0]) in self.facts:
                return num(self.facts['arg', a[0]])
            ty = 'ptr'
            if a[0] < len(f.argtypes):
                ty = vty(f.argtypes[a[0]])
            v = sym(('arg', a[0]), ty)
            return truth(v) if ty == 'bool' else v
        if k == 'str':
            return sym(('str', a[0]), 'ptr')
        if k == 'fn':
            return sym(('fn', a[0]), 'ptr')
        if k == 'g':
            g = self.prog.globals.get(a[0])
            if g and g['const'] and 'internal' in g['quals'] and g['init']:
                return sym(('g', 'table %s = %s' % (g['ty'], g['init'])),
                           'ptr')
            return sym(('g', a[0]), 'ptr')
        if k == 'alloca':
            self.nlocal += 1
            v = sym(('alloca', self.nlocal), 'ptr')
            self.env[t] = v
            return v
        if k == 'fld':
            return fld(self.ev(a[0]), a[1], a[2])
        if k == 'idx':
            return idx(self.ev(a[0]), self.ev(a[1]))
        if k == 'cast':
            v = self.ev(a[1])
            if a[0] in ('sitofp', 'uitofp'):
                return v
            if a[0] in ('fptosi', 'fptoui'):
                return apply('toint', lambda x: x if x.int else
                             num(int(x.a[0])) if x.k == 'num' else
                             fnl('toint', x), v)
            if a[0] == 'fptrunc':
                return apply('f32', lambda x: x if x.k == 'num'
                             else fnl('f32', x), v)
            raise Undecided("cast %s" % a[0])
        if k == 'not':
            return NOT(truth(self.ev(a[0])))
        if k == 'cmp':
            return self.cmp(a[0], self.ev(a[1]), self.ev(a[2]))
        if k == 'sel':
            return ite(truth(self.ev(a[0])), self.ev(a[1]), self.ev(a[2]))
        if k == 'in':
            v = self.ev(a[0])
            r = ZERO
            for c in a[1]:
                r = OR(r, eq(v, num(c)))
            return simp(r)
        if k == 'op':
            op = a[0]
            if op == 'fneg':
                return vn.neg(self.ev(a[1]))
            vs = [self.ev(x) for x in a[1:]]
            if op == 'xor' and len(vs) == 2 and vs[1] is ONE and \
                    all(x in (ZERO, ONE) for x in vn.leaves(vs[0])):
                return NOT(vs[0])
            c = vn.call(op, vs)
            if c is not None:
                return c
            if op in ('smax', 'umax'):
                return ite(gt(vs[0], vs[1]), vs[0], vs[1])
            if op in ('smin', 'umin'):
                return ite(gt(vs[1], vs[0]), vs[0], vs[1])
            if len(vs) == 2:
                return vn.binop(op, *vs)
            raise Undecided("operation %s" % op)
        if k == 'undef':
            return sym(('undef',))
        if k == 'vld' or k == 'phi' or k == 'call' or k == 'callref':
            raise Undecided("value of %s not available" % show(t)[:60])
        raise Undecided("term %s" % k)

    def cmp(self, p, a, b):
        if p in ('eq', 'oeq', 'ueq'):
            return eq(a, b)
        if p in ('ne', 'une', 'one'):
            return NOT(eq(a, b))
        if p in ('uno', 'ord'):
            return ZERO if p == 'uno' else ONE
        q = p[1:]
        if q == 'gt':
            return gt(a, b)
        if q == 'lt':
            return gt(b, a)
        if q == 'ge':
            return NOT(gt(b, a))
        if q == 'le':
            return NOT(gt(a, b))
        raise Undecided("comparison %s" % p)

    # ----------------------------------------------------------- memory
    def norm(self, A):
        if A.k not in ('fld', 'idx'):
            return vn._idx(A, ZERO)
        return A

    def load(self, mem, addr, ty):
        key = 'ld'
        if isinstance(addr, L):
            return self.ldleaf(mem, self.norm(addr), ty)
        # split on the address
        r = ite(vn.mkD(addr.at, ONE, ZERO), self.load(mem, addr.hi, ty),
                self.load(mem, addr.lo, ty))
        return simp(r)

    def ldleaf(self, mem, A, ty):
        out = []
        reg = lregion(A)
        fresh = vn.fresh(vn.objroot(A))
        m = mem
        done = False
        while m is not None and not done:
            e = m.e
            k = e[0]
            if k == 'st':
                c = vn.same(A, e[2])
                if c is None:
                    c = vn._peqraw(A, e[2])
                c = simp(AND(e[1], c))
                if c is not ZERO:
                    out.append((c, e[3]))
                    done = c is ONE
            elif k == 'blk':
                if A.k == 'idx':
                    c = ONE if A.a[0] is e[2].a[0] else \
                        vn.bufsame(A.a[0], e[2].a[0])
                    if c is not ZERO:
                        i = vn._sub(A.a[1], e[2].a[1])
                        n = vn.div(e[3], num(SIZE[ty]))
                        inside = ONE if e[4] == 'all' else \
                            AND(ige(i, ZERO), gt(n, i))
                        c = simp(AND(AND(e[1], c), inside))
                        if c is not ZERO:
                            if e[4] == 'copy':
                                v = self.ldleaf(m.up, vn._idx(
                                    e[5].a[0], vn._add(e[5].a[1], i)), ty) \
                                    if e[5].k == 'idx' else self.ldleaf(
                                        m.up, vn._idx(e[5], i), ty)
                            else:
                                v = e[5]
                            out.append((c, v))
                            done = c is ONE
            elif k == 'hv':
                if not fresh and reg in e[3]:
                    c, E = self.touches(e[2], A)
                    c = simp(AND(e[1], c))
                    if c is not ZERO:
                        v = sym(('ldx', E, A), ty)
                        if ty == 'bool':
                            v = truth(v)
                        out.append((c, v))
                        done = c is ONE
            elif k == 'each':
                try:
                    r = self.unify(A, e)
                except Undecided:
                    out.append((ONE, self.rd(m, A, ty)))
                    done = True
                    break
                if r is not None:
                    c = simp(AND(e[1], r[0]))
                    if c is not ZERO:
                        out.append((c, r[1]))
                        done = c is ONE
            elif k == 'bar':
                r = self.crossing(e[1], A, reg, fresh, ty)
                if r is not None:
                    out.append((ONE, r))
                    done = True
            m = m.up
        if done:
            v = out.pop()[1]
        else:
            v = self.initial(A, ty)
        for c, x in reversed(out):
            v = ite(c, x, v)
        return simp(v)

    def rd(self, m, A, ty):
        """element of an array whose earlier writes cannot be told apart"""
        es = []
        while m is not None:
            e = m.e
            if e[0] == 'bar':
                B = self.bars[e[1]]
                if any(x[0] != 'hv' and not self.apart(
                        A, x[3] if x[0] == 'each' else x[2])
                       for x in B['writes']):
                    B['pend'] = "array read back %r" % A
            elif e[0] == 'hv':
                if lregion(A) in e[3] and not vn.fresh(vn.objroot(A)):
                    es.append(('hv', e[1], e[2]))
            elif not self.apart(A, e[3] if e[0] == 'each' else e[2]):
                es.append(e)
            m = m.up
        return fnl('rd', ty, A, vn.tup(es))

    def initial(self, A, ty):
        root = vn.objroot(A)
        if A is RNGCELL:
            return ZERO
        if vn.fresh(root):
            return sym(('undef', A), ty)
        if root.k == 'sym' and root.a[0] == 'g':
            c = self.constant(A)
            if c is not None:
                return c
        if A.k == 'fld':
            if A.a[1:] == ('Clist', 'next') and vn.nthof(A.a[0]):
                n = A.a[0]
                return vn._nth(n.a[1], n.a[2], vn._add(n.a[3], ONE))
            if A.a[1:] == ('Set', 'list'):
                return vn._nth(sym(('ld', A), 'ptr'), 'Clist.next', ZERO)
            if A.a[1:] in self.facts:
                return num(self.facts[A.a[1:]])
        v = sym(('ld', A), ty)
        return truth(v) if ty == 'bool' else v

    def constant(self, A):
        return None

    # a call that is given one classifier (set) changes only that one
    def ownidx(self, name):
        """(argument, 'Cl' | 'Set') or None"""
        k = self.own_.get(name, 0)
        if k == 0:
            k = None
            mod, _ = self.mr.of(name)
            mod = {r for r in mod if r[0] not in RNG and r not in self.mr.rng}
            if mod and all(r[0] in ('Set', 'Clist') for r in mod):
                kind = 'Set'
            elif mod and name.startswith('LayerVtbl.') and \
                    all(r[0] in ('Layer', 'param') for r in mod):
                kind = 'Layer'
            elif not any(r[0] in CORE and r[0] != 'Cl' or r[0] == 'global'
                         for r in mod):
                kind = 'Cl'
            else:
                kind = None
            if kind:
                ks = set()
                for f in self.mr.impl.get(name, (name,)):
                    f = self.prog.funcs.get(f)
                    if f is None:
                        ks.add(None)
                        continue
                    cs = [i for i in range(len(f.args))
                          if self.prog.paramtype(f, i) ==
                          ('ptr', ('struct', kind))]
                    ks.add(cs[0] if len(cs) == 1 else None)
                if len(ks) == 1:
                    k = ks.pop()
                if any(r[0] == 'param' and r[1] != k for r in mod):
                    k = None
                if k is not None:
                    k = (k, kind)
            self.own_[name] = k
        return k

    def owner2(self, E):
        if isinstance(E, L) and E.k == 'sym' and E.a[0] == 'res':
            k = self.ownidx(E.a[1])
            if k is not None and k[0] < E.a[2] and \
                    isinstance(E.a[3 + k[0]], L):
                return E.a[3 + k[0]], k[1]
        return None, None

    def owner(self, E):
        return self.owner2(E)[0]

    def ownerof(self, A, kind='Cl'):
        """the classifier (set) an address belongs to"""
        S = None
        if kind == 'Set':
            while A.k in ('fld', 'idx'):
                if A.k == 'fld' and A.a[1] == 'Set':
                    return A.a[0]
                A = A.a[0]
            if vn.nthof(A) and A.a[1].k == 'sym' and \
                    A.a[1].a[0] in ('ld', 'ldx', 'ldp'):
                h = A.a[1]
                q = h.a[1] if h.a[0] == 'ld' else h.a[2]
                if q.k == 'fld' and q.a[1:] == ('Set', 'list'):
                    return q.a[0]
            return None
        if kind == 'Layer':
            while True:
                if A.k == 'fld' and A.a[1] == 'Layer':
                    return A.a[0]
                if A.k in ('fld', 'idx'):
                    A = A.a[0]
                elif A.k == 'sym' and A.a[0] in ('ld', 'ldx', 'ldp'):
                    A = A.a[1] if A.a[0] == 'ld' else A.a[2]
                else:
                    return None
        while True:
            if A.k == 'fld':
                S = A.a[1]
                A = A.a[0]
            elif A.k == 'idx':
                A = A.a[0]
            elif A.k == 'sym' and A.a[0] in ('ld', 'ldx', 'ldp'):
                if vn.clof(A) is not None:
                    return A
                A = A.a[1] if A.a[0] == 'ld' else A.a[2]
            elif A.k == 'sym' and A.a[0] in ('arg', 'new', 'alloca'):
                return A if S == 'Cl' else None
            else:
                return None

    def touches(self, E, A):
        """condition under which a call changed A, and the call that did"""
        if isinstance(E, L) and E.k == 'fn' and E.a[0] == 'lam':
            p, kind = self.owner2(E.a[3])
            q = self.ownerof(A, kind) if p is not None else None
            if q is None:
                return ONE, E
            c = vn.same(p, q)
            if c is ZERO:
                return ZERO, E
            b = vn.bound(E.a[2])
            t = self.solve(p, q, b) if occurs(p, b) else None
            if t is None or not isinstance(t, L):
                return ONE, E
            m = {b: t}
            c = AND(AND(ige(t, ZERO), gt(E.a[1], t)), subst(E.a[4], m))
            E2 = subst(E.a[3], m)
            if not isinstance(E2, L):
                return ONE, E
            return simp(self.known(c)), E2
        p, kind = self.owner2(E)
        q = self.ownerof(A, kind) if p is not None else None
        if q is None:
            return ONE, E
        return self.meets(p, q, kind), E

    def meets(self, p, q, kind, deep=False):
        """may a call on p change the cells of q (deep: or of what is
        inside q)?"""
        if kind == 'Layer' and p is not q:
            if occurs(q, p):
                # p contains q
                return ONE
            if occurs(p, q):
                return ONE if deep else ZERO
            if all(x.k == 'sym' and x.a[0] == 'ld' and x.a[1].k == 'fld' and
                   x.a[1].a[1] == 'Layer' for x in (p, q)) and \
                    p.a[1].a[0] is q.a[1].a[0]:
                # every layer has an owner
                return ZERO
        c = vn.same(p, q)
        return vn._peq(p, q) if c is None else c

    def walked(self, e, h, sf):
        """may the havoc of e change the links of the list h?"""
        if sf not in e[3]:
            return False
        c, _ = self.touches(e[2], vn._fld(vn._nth(h, '%s.%s' % sf, ZERO),
                                          *sf))
        return simp(AND(e[1], c)) is not ZERO

    # writes of the enclosing loop seen from an earlier iteration
    def crossing(self, uid, A, reg, fresh, ty):
        B = self.bars[uid]
        for e in B['writes']:
            if e[0] == 'hv':
                if not fresh and reg in e[3]:
                    p, kind = self.owner2(e[2])
                    q = self.ownerof(A, kind) if p is not None else None
                    if p is not None and q is not None and \
                            (p is q and self.injective(p, B) or
                             p is not q and (vn.same(p, q) is ZERO or
                                             self.never(q, p, B))):
                        continue
                    v = sym(('ldp', B['iv'], A, e[2]), ty)
                    return truth(v) if ty == 'bool' else v
                continue
            if e[0] == 'st':
                W = e[2]
                if W.k == 'idx' and W.a[0] in B['inv']:
                    continue
            elif e[0] == 'blk':
                W = e[2]
                if A.k == 'idx' and vn.bufsame(A.a[0], W.a[0]) is not ZERO:
                    B['pend'] = "block write in a loop read back"
                continue
            else:
                W = e[3]
            if e[0] == 'each':
                if self.apart(A, W):
                    continue
                r = self.nested(B, A, e, ty)
                if r == 'no':
                    continue
                if r is not None:
                    return r
                B['pend'] = "nested writes read back: %r" % A
                continue
            c = vn.same(A, W)
            if c is ZERO:
                continue
            if W is A:
                if not self.variant(A, B):
                    return self.memmu(B, A, ty)
                if self.injective(A, B):
                    continue
                return self.selfsym(B, A, ty)
            # the same shape at another iteration
            if self.never(A, W, B):
                continue
            B['pend'] = "loop-carried memory %r / %r" % (A, W)
        return None

    def apart(self, A, W):
        """two addresses that can never meet, whatever the indices"""
        if A.k != W.k:
            return True
        if A.k == 'fld':
            return A.a[1:] != W.a[1:]
        return A.a[0] is not W.a[0] and vn.bufsame(A.a[0], W.a[0]) is ZERO

    def nested(self, B, A, e, ty):
        k = self.loopstack.index(B['uid'])
        ivs = [self.bars[u]['iv'] for u in self.loopstack[k + 1:]]
        for s in range(len(ivs) - len(e[2]) + 1):
            m = {b: iv for (b, _), iv in zip(e[2], ivs[s:])}
            if subst(e[3], m) is A:
                if occurs(A, B['iv']) and self.injective(A, B):
                    return 'no'
                B['nest'][A] = tuple(ivs[s:s + len(e[2])])
                return self.selfsym(B, A, ty)
        return None

    def variant(self, A, B):
        return any(occurs(A, s) for s in B['vars'])

    def injective(self, A, B):
        """distinct iterations touch distinct elements"""
        iv = B['iv']
        if any(occurs(A, s) for s in B['vars'] if s is not iv):
            return False
        p = A
        while True:
            if p.k == 'idx':
                d = vn._sub(p.a[1], iv)
                if not occurs(d, iv) and not occurs(p.a[0], iv):
                    return True
                if occurs(p.a[1], iv):
                    q = vn._sub(p.a[1], vn._neg(iv))
                    return not occurs(q, iv) and not occurs(p.a[0], iv)
                p = p.a[0]
            elif p.k == 'fld':
                p = p.a[0]
            elif vn.clof(p) is not None:
                p = vn.clof(p)
            elif vn.nthof(p):
                d = vn._sub(p.a[3], iv)
                return not occurs(d, iv) and not occurs(p.a[1], iv)
            else:
                return False

    def never(self, A, W, B):
        """A (this iteration) is never W of an earlier iteration"""
        iv = B['iv']
        j = sym(('ivprev', iv), 'int')
        W2 = subst(W, {iv: j})
        if not isinstance(W2, L):
            return False
        c = vn.same(A, W2)
        if c is ZERO:
            return True
        if c is None:
            return False
        c = simp(c, ((vn._sub(vn._sub(iv, j), vn.HALF), True),))
        return c is ZERO

    def memmu(self, B, A, ty):
        if A not in B['mm']:
            B['mm'][A] = (sym(('mm', B['uid'], len(B['mm'])),
                              ty if ty != 'bool' else 'int'), ty)
            B['new'] = True
            B['vars'].append(B['mm'][A][0])
        return B['mm'][A][0]

    def selfsym(self, B, A, ty):
        if A not in B['self']:
            B['self'][A] = sym(('self', B['uid'], len(B['self'])), ty)
            B['new'] = True
        return B['self'][A]

    def unify(self, A, e):
        """('each', g, binders, addr, val, self): condition and value at A"""
        _, g, binders, W, v, slf, cond = e
        if A.k != W.k:
            return None
        if A.k == 'fld' and A.a[1:] != W.a[1:]:
            return None
        if A.k == 'idx' and A.a[0] is not W.a[0] and \
                vn.bufsame(A.a[0], W.a[0]) is ZERO:
            return None
        ra, rw = vn.objroot(A), vn.objroot(W)
        if (vn.fresh(ra) or vn.fresh(rw)) and ra is not rw:
            return None
        if slf is not None:
            raise Undecided("accumulated array read back")
        if len(binders) == 1:
            b, N = binders[0]
            t = self.solve(W, A, b)
            if t is not None:
                m = {b: t}
                c = AND(ige(t, ZERO), gt(N, t))
                c = AND(c, subst(cond, m))
                return simp(self.known(c)), subst(v, m)
        else:
            # the same nest: bind to the induction variables of the loops
            # around the read
            ivs = [self.bars[u]['iv'] for u in self.loopstack]
            k = len(binders)
            for s in range(len(ivs) - k + 1):
                m = {b: iv for (b, _), iv in zip(binders, ivs[s:s + k])}
                if subst(W, m) is A:
                    c = ONE
                    for b, N in binders:
                        c = AND(c, gt(subst(N, m), m[b]))
                    c = AND(c, subst(cond, m))
                    return simp(self.known(c)), subst(v, m)
        raise Undecided("array element %r written as %r" % (A, W))

    def known(self, c):
        """use what the enclosing loops' bounds say"""
        for u in self.loopstack:
            B = self.bars[u]
            iv = B['iv']
            ctx = ((vn._add(iv, vn.HALF), True),)
            c = simp(c, ctx)
            if B.get('bound') is not None:
                d = vn._sub(vn._sub(B['bound'], iv), vn.HALF)
                c = simp(c, ctx + ((d, True),))
        return c

    def solve(self, W, A, b):
        if W is A:
            return None if occurs(W, b) else ZERO
        if W.k != A.k:
            return None
        if W.k == 'fld':
            if W.a[1:] != A.a[1:]:
                return None
            return self.solve(W.a[0], A.a[0], b)
        if W.k == 'idx':
            if not occurs(W.a[0], b) and W.a[0] is A.a[0]:
                d = vn._sub(W.a[1], b)
                if not occurs(d, b):
                    return vn._sub(A.a[1], d)
                d = vn._sub(W.a[1], vn._neg(b))
                if not occurs(d, b):
                    return vn._sub(d, A.a[1])
                return None
            if W.a[1] is A.a[1]:
                return self.solve(W.a[0], A.a[0], b)
            return None
        if vn.nthof(W) and vn.nthof(A) and W.a[1] is A.a[1]:
            d = vn._sub(W.a[3], b)
            if not occurs(d, b):
                return vn._sub(A.a[3], d)
            return None
        if vn.clof(W) is not None and vn.clof(A) is not None:
            return self.solve(vn.clof(W), vn.clof(A), b)
        return None

    # ------------------------------------------------------------ regions
    def join(self, ins):
        """ins: [(St, src, blk)] -> St"""
        if len(ins) == 1:
            return ins[0][0]
        pc = ZERO
        for s, _, _ in ins:
            pc = OR(pc, s.pc)
        pc = simp(pc)
        out = []
        for f in ('mem', 'ev'):
            cs = [getattr(s, f) for s, _, _ in ins]
            base = lca(cs)
            c = base
            for s, _, _ in ins:
                for e in lst(getattr(s, f), base):
                    g = entguard(e, vn.under(s.pc, pc))
                    if g[0] == 'bar' or g[1] is not ZERO:
                        c = push(c, g)
            out.append(c)
        return St(pc, *out)

    def value_at(self, ins, vals):
        v = vals[-1]
        pc = ZERO
        for s, _, _ in ins:
            pc = OR(pc, s.pc)
        for (s, _, _), x in list(zip(ins, vals))[-2::-1]:
            v = ite(s.pc, x, v)
        return vn.under(v, simp(pc))

    def region(self, nodes, entry, ins0, header):
        """walk an acyclic region (back edges of `header` excluded); returns
        exits [(src, dst, St)] and backs [(src, St)]"""
        pend = {entry: list(ins0)}
        exits, backs = [], []
        order = [n for n in self.order if n in nodes]
        self.final = None
        final = None
        done = set()
        i = 0
        for n in order:
            if n in done or n not in pend:
                continue
            ins = pend.pop(n)
            L_ = self.hdr.get(n)
            if L_ is not None and n is not header:
                outs = self.loop(L_, ins)
                done |= L_.nodes
                for src, dst, st in outs:
                    self.edge(src, dst, st, nodes, header, pend, exits, backs)
                continue
            st = self.join(ins)
            if n in self.phis and n is not header:
                vals = []
                for t, info in self.phis[n]:
                    by = {bn: tv for tv, bn in info['inc']}
                    xs = []
                    for s, src, blk in ins:
                        xs.append(self.ev(by[blk]))
                    vals.append((t, self.value_at(ins, xs)))
                for t, v in vals:
                    self.set(t, v)
            if n in self.retphi:
                for t, info in self.retphi[n]:
                    by = {r: tv for tv, r in info['inc']}
                    xs = [self.ev(by[src]) for s, src, blk in ins]
                    self.set(t, self.value_at(ins, xs))
            st = self.node(n, st)
            if n is self.g.exit and not n.succ:
                final = st
            for s, c in n.succ:
                if c is None:
                    self.edge(n, s, st, nodes, header, pend, exits, backs)
                else:
                    v = truth(self.ev(c[0]))
                    if self.sized is not None:
                        v = self.fixlen(v)
                    if not c[1]:
                        v = NOT(v)
                    pc = simp(AND(st.pc, v))
                    if pc is not ZERO:
                        self.edge(n, s, St(pc, st.mem, st.ev), nodes, header,
                                  pend, exits, backs)
        self.final = final
        return exits, backs

    def edge(self, n, s, st, nodes, header, pend, exits, backs):
        if s is header:
            backs.append((n, st))
        elif s not in nodes:
            exits.append((n, s, st))
        else:
            pend.setdefault(s, []).append(
                (st, n, self.g.tailblk.get((n.id, s.id))))

    # ------------------------------------------------------------- loops
    def fixlen(self, v):
        """under the case's number of members of a set"""
        m = {}
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, vn.D):
                todo += [x.hi, x.lo]
                todo += list(x.at.d) if x.at.k == 'eq' else [x.at.d]
            elif isinstance(x, vn.L):
                if x.k == 'sym' and x.a[0] == 'ld' and x.a[1].k == 'fld' \
                        and x.a[1].a[1:] == ('Set', 'size'):
                    m[x] = num(self.sized)
                elif x.k == 'poly':
                    todo += [y for mon, c in x.a[0] for y, e in mon]
        return simp(subst(v, m)) if m else v

    def unrolled(self, L_, st, phis, vals):
        """the loop as so many copies of its body, if their number is fixed
        by the case considered"""
        h = L_.header
        nal = self.nalloc
        for rnd in range(4):
            for t, _ in phis:
                self.set(t, vals[t])
            exits, backs = self.region(L_.nodes, h, [(st, None, None)], h)
            if exits and backs:
                break
            if not backs:
                return exits
            bi = [(s, src, None) for src, s in backs]
            vals = {}
            for t, info in phis:
                by = {bn: tv for tv, bn in info['inc']}
                xs = [self.ev(by[self.g.tailblk[src.id, h.id]])
                      for src, s in backs]
                vals[t] = self.value_at(bi, xs)
            st = self.join(bi)
        self.nalloc = nal
        return None

    def loop(self, L_, ins):
        S0 = self.join(ins)
        h = L_.header
        uid = self.uids.setdefault(h, len(self.uids))
        iv = sym(('iv', uid), 'int')
        B = {'uid': uid, 'iv': iv, 'writes': [], 'mm': {}, 'self': {},
             'vars': [iv], 'events': [], 'new': False, 'bound': None, 'pend': None,
             'inv': set(), 'nest': {}}
        self.bars[uid] = B
        phis = self.phis.get(h, [])
        init, mu = {}, {}
        for j, (t, info) in enumerate(phis):
            by = {bn: tv for tv, bn in info['inc']}
            xs = [self.ev(by[blk]) for s, src, blk in ins]
            init[t] = self.value_at(ins, xs)
            mu[t] = sym(('mu', uid, j), vty(info['ins'].ty))
            B['vars'].append(mu[t])
        if self.unroll:
            outs = self.unrolled(L_, S0, phis, init)
            if outs is not None:
                return outs
        closed = {}
        early = set()
        for t, info in phis:
            if info['kind'] == 'ind' and mu[t].ty == 'int':
                closed[t] = add(init[t], mul(num(info['step'][0]), iv))
            elif info['kind'] == 'iter' and isinstance(init[t], L) and \
                    init[t] is not NULLV:
                i0 = init[t]
                closed[t] = vn._nth(i0.a[1], i0.a[2], vn._add(i0.a[3], iv)) \
                    if vn.nthof(i0) else \
                    vn._nth(i0, '%s.%s' % info['step'], iv)
                early.add((t, info['step']))
        snap = [(b, b['pend'], b['new'], dict(b['mm']), dict(b['self']),
                 list(b['vars'])) for b in
                (self.bars[u] for u in self.loopstack)]
        self.loopstack.append(uid)
        self.care.append(S0.pc)
        mark = len(self.touched)
        nal = self.nalloc
        try:
            for rnd in range(10):
                del self.touched[mark:]
                for b, p1, p2, p3, p4, p5 in snap:
                    b['pend'], b['new'] = p1, p2
                    b['mm'], b['self'], b['vars'] = \
                        dict(p3), dict(p4), list(p5)
                self.nalloc = nal
                B['new'] = False
                B['pend'] = None
                for t, _ in phis:
                    self.set(t, closed.get(t, mu[t]))
                st = St(ONE, push(S0.mem, ('bar', uid)),
                        push(S0.ev, ('bar', uid)))
                exits, backs = self.region(L_.nodes, h, [(st, None, None)], h)
                if not backs:
                    # the body always leaves: a plain block
                    break
                step = {}
                bi = [(s, src, None) for src, s in backs]
                for t, info in phis:
                    by = {bn: tv for tv, bn in info['inc']}
                    xs = [self.ev(by[self.g.tailblk[src.id, h.id]])
                          for src, s in backs]
                    step[t] = self.value_at(bi, xs)
                bst = self.join(bi)
                w = [e for e in lst(bst.mem, None)]
                k = max(i for i, e in enumerate(w) if e == ('bar', uid))
                w = w[k + 1:]
                evs = lst(bst.ev, None)
                k = max(i for i, e in enumerate(evs) if e == ('bar', uid))
                evs = evs[k + 1:]
                ch = [entfp(e) for e in w] != [entfp(e) for e in B['writes']]
                ch = ch or [entfp(e) for e in evs] != \
                    [entfp(e) for e in B['events']]
                B['writes'], B['events'] = w, evs
                for t, _ in phis:
                    if t in closed:
                        continue
                    c = self.induction(B, mu[t], init[t], step[t], w)
                    if c is not None:
                        closed[t] = c
                        ch = True
                        m = {mu[t]: c}
                        B['writes'] = [entsubst(e, m) for e in B['writes']]
                        B['events'] = [entsubst(e, m) for e in B['events']]
                if not ch and not B['new']:
                    if B['pend'] and not B['inv']:
                        # perhaps every iteration restores what it changes
                        B['inv'] = {e[2].a[0] for e in w if e[0] == 'st' and
                                    e[2].k == 'idx' and
                                    vn.fresh(vn.objroot(e[2])) and
                                    self.variant(e[2], B)}
                        if B['inv']:
                            continue
                    if B['pend']:
                        raise Undecided(B['pend'])
                    for e in w:
                        W = e[2] if e[0] in ('st', 'blk') else \
                            e[3] if e[0] == 'each' else None
                        if not B['inv'] or W is None or W.k != 'idx' or \
                                W.a[0] not in B['inv']:
                            continue
                        if e[0] != 'st' or vn.under(
                                self.load(bst.mem, W, e[4]), bst.pc) is not \
                                vn.under(self.load(S0.mem, W, e[4]), bst.pc):
                            raise Undecided("array changed in a loop")
                    break
            else:
                raise Undecided("loop does not stabilise: %s" % B['pend'])
        finally:
            self.loopstack.pop()
            self.care.pop()
        for t, sf in early:
            for e in B['writes']:
                a = e[2] if e[0] == 'st' else e[3] if e[0] == 'each' else None
                if e[0] == 'hv' and self.walked(e, closed[t].a[1], sf) or \
                        a is not None and lregion(a) == sf and not vn.fresh(vn.objroot(a)):
                    raise Undecided("list modified while walked")
        if not backs:
            return [(s, d, self.outer(x, S0, uid, [], [], {}))
                    for s, d, x in exits]
        # closed forms of the remaining variables
        vs = {}
        for t, _ in phis:
            if t not in closed:
                vs[mu[t]] = (init[t], step[t])
        for A, (m, ty) in B['mm'].items():
            vs[m] = (self.load(S0.mem, A, ty), self.load(bst.mem, A, ty))
        form = {}
        K = bst.pc
        n_ = sym(('n', uid), 'int')
        todo = dict(vs)
        while todo:
            prog = False
            for m, (i0, s1) in list(todo.items()):
                others = [x for x in todo if x is not m]
                s1 = subst(s1, {x: subst(f, {n_: iv})
                                for x, f in form.items()})
                if any(occurs(s1, x) for x in others):
                    continue
                form[m] = self.close(B, m, i0, vn.under(s1, bst.pc), n_)
                del todo[m]
                prog = True
            if not prog:
                g = self.knot(todo, {x: subst(f, {n_: iv})
                                     for x, f in form.items()}, bst.pc)
                form.update(self.joint(B, g, n_))
                for m in g:
                    del todo[m]
        here = {x: subst(f, {n_: iv}) for x, f in form.items()}
        K = simp(subst(K, here))
        ctx = K
        B['K'] = K
        N = self.trip(B, K, iv)
        at = {x: subst(f, {n_: N}) for x, f in form.items()}
        at[iv] = N
        # entries of the complete iterations
        bk = vn.bound
        mems, evs = [], []
        for e in B['writes']:
            e = self.entunder(entsubst(e, here), K)
            if e[0] == 'st' and (any(e[2] is A for A in B['mm']) or
                                 e[2].k == 'idx' and e[2].a[0] in B['inv']):
                continue
            mems.append(self.generalise(B, e, N))
        for A, (m, ty) in B['mm'].items():
            mems.append(('st', ONE, A, subst(form[m], {n_: N}), ty))
        for e in B['events']:
            e = self.entunder(entsubst(e, here), K)
            evs.append(self.geneach(B, e, N))
        # values defined inside, as seen after the loop
        for t in set(self.touched[mark:]):
            v = self.env[t]
            self.env[t] = subst(subst(v, here), {iv: N})
        for t in mu:
            self.env[t] = subst(subst(closed.get(t, mu[t]), at), at)
        self.tm.clear()
        full = dict(here)
        out = []
        for s, d, x in exits:
            out.append((s, d, self.outer(x, S0, uid, mems, evs,
                                         (here, {iv: N}))))
        return out

    def entunder(self, e, K):
        return (e[0],) + tuple(
            vn.under(x, K) if isinstance(x, D) else x for x in e[1:])

    def outer(self, x, S0, uid, mems, evs, maps):
        mem, ev = S0.mem, S0.ev
        for e in mems:
            mem = push(mem, e)
        for e in evs:
            ev = push(ev, e)

        def sub2(v):
            for m in maps or ():
                v = subst(v, m)
            return v

        def part(c):
            w = lst(c, None)
            k = max(i for i, e in enumerate(w) if e == ('bar', uid))
            return w[k + 1:]
        for e in part(x.mem):
            for m in maps or ():
                e = entsubst(e, m)
            mem = push(mem, e)
        for e in part(x.ev):
            for m in maps or ():
                e = entsubst(e, m)
            ev = push(ev, e)
        pc = simp(AND(S0.pc, sub2(x.pc)))
        return St(pc, mem, ev)

    def fixed(self, B, m, c):
        """c is the same in every iteration"""
        return c.k == 'num' or not any(occurs(c, x) for x in B['vars'])

    def induction(self, B, m, i0, s1, writes):
        iv = B['iv']
        if s1 is m:
            return i0
        if isinstance(s1, L):
            if m.ty in ('int', 'real', 'char'):
                c = vn._sub(s1, m)
                if c.k == 'num' or self.fixed(B, m, c):
                    return add(i0, mul(c, iv))
                return None
        if m.ty != 'ptr':
            return None
        if isinstance(s1, L) and s1.k == 'idx' and s1.a[0] is m and \
                self.fixed(B, m, s1.a[1]):
            return vn.idx(i0, mul(s1.a[1], iv))
        # list walk, possibly guarded against the end of the list
        nxt = None
        for l in vn.leaves(s1):
            if l is m or l is NULLV:
                continue
            if l.k == 'sym' and l.a[0] == 'ld' and l.a[1].k == 'fld' and \
                    l.a[1].a[0] is m and nxt in (None, l):
                nxt = l
            else:
                return None
        if nxt is None or not isinstance(i0, L):
            return None
        if isinstance(s1, D):
            c = subst(s1, {m: NULLV}) if False else None
            nn = vn._peqraw(m, NULLV)
            if s1 is not ite(nn, m, nxt) and s1 is not ite(nn, NULLV, nxt):
                return None
        S, f = nxt.a[1].a[1:]
        for e in writes:
            if e[0] in ('st', 'each') and not \
                    vn.fresh(vn.objroot(e[2 if e[0] == 'st' else 3])) and \
                    lregion(e[2 if e[0] == 'st' else 3]) == (S, f):
                return None
            if e[0] == 'hv' and self.walked(
                    e, i0.a[1] if vn.nthof(i0) else i0, (S, f)):
                return None
        if vn.nthof(i0):
            return vn._nth(i0.a[1], i0.a[2], vn._add(i0.a[3], iv))
        return vn._nth(i0, '%s.%s' % (S, f), iv)

    def knot(self, todo, here, pc):
        """variables that depend on one another and on no other"""
        st = {m: (i0, vn.under(subst(s1, here), pc))
              for m, (i0, s1) in todo.items()}
        dep = {m: {x for x in st if occurs(v[1], x)} for m, v in st.items()}
        best = None
        for m in st:
            r, w = {m}, [m]
            while w:
                for x in dep[w.pop()] - r:
                    r.add(x)
                    w.append(x)
            if best is None or len(r) < len(best):
                best = r
        return {m: st[m] for m in st if m in best}

    def joint(self, B, g, n_):
        """one recurrence for several variables"""
        iv = B['iv']
        h = max(vn.height(s1) for _, s1 in g.values())
        k = len(g)
        m = {x: vn.bself(h + j) for j, x in enumerate(g)}
        m[iv] = vn.bound(h)
        ini = [i0 for i0, _ in g.values()]
        body = [subst(s1, m) for _, s1 in g.values()]
        return {x: apply('mfold%d.%d' % (j, vn.H([v.fp for v in ini + body])),
                         lambda n, j=j: fnl('mfold', n, h, j, k, *ini, *body),
                         n_) for j, x in enumerate(g)}

    def close(self, B, m, i0, s1, n_):
        iv = B['iv']
        if s1 is m:
            return i0
        if not occurs(s1, m):
            if not occurs(s1, iv):
                return ite(eq(n_, ZERO), i0, s1)
            return ite(eq(n_, ZERO), i0, subst(s1, {iv: vn._sub(n_, ONE)}))
        if m.ty != 'ptr':
            d = simp(sub(s1, m))
            if not occurs(d, m):
                return add(i0, self.sum(n_, iv, d))
        # conditional overwrite or general recurrence
        h = max(vn.height(s1), 0)
        b, sf = vn.bound(h), vn.bself(h)
        body = subst(s1, {iv: b, m: sf})
        return apply('fold%d.%d' % (body.fp, i0.fp),
                     lambda n: fnl('fold', n, h, i0, body), n_)

    def sum(self, n_, iv, d):
        if not occurs(d, iv):
            return mul(n_, d)
        h = vn.height(d)
        body = subst(d, {iv: vn.bound(h)})
        x = fnl('sum', n_, h, body)
        return x

    def trip(self, B, K, iv):
        """number of complete iterations"""
        ns = self.bounds(K, iv)
        if ns is not None:
            N = ns[0]
            for n in ns[1:]:
                N = ite(gt(N, n), n, N)
            if len(ns) == 1:
                B['bound'] = N
            return N
        h = vn.height(K)
        body = subst(K, {iv: vn.bound(h)})
        return fnl('trip', ZERO, h, body)

    def bounds(self, K, iv):
        """[n...] when K is the conjunction of iv < n"""
        if K is ONE:
            return None
        out = []
        v = K
        while isinstance(v, D):
            if v.at.k != 'gt':
                return None
            d = v.at.d
            if v.lo is ZERO:
                e = d
                v = v.hi
            elif v.hi is ZERO:
                e = vn._neg(d)
                if not vn._sub(e, vn.HALF).int and \
                        not vn._add(e, vn.HALF).int:
                    return None
                v = v.lo
            else:
                return None
            n = vn._add(vn._add(e, iv), vn.HALF)
            if occurs(n, iv) or not n.int:
                return None
            out.append(n)
        return out if v is ONE and out else None

    def generalise(self, B, e, N):
        """one iteration's write, for all iterations 0..N-1"""
        iv = B['iv']
        vals = entvals(e)
        if e[0] == 'hv':
            h = max([vn.height(x) for x in vals])
            b = vn.bound(h)
            E = subst(e[2], {iv: b})
            return ('hv', truth0(N), fnl('lam', N, h, E, subst(e[1], {iv: b})
                                         ), e[3])
        if e[0] == 'st':
            slf = None
            if e[2] in B['self']:
                slf = B['self'][e[2]]
            h = max(vn.height(x) for x in vals)
            b = vn.bound(h)
            m = {iv: b}
            s2 = None
            if slf is not None:
                s2 = vn.bself(h)
                m[slf] = s2
            return ('each', ONE, ((b, N),), subst(e[2], m), subst(e[3], m),
                    s2, subst(e[1], m))
        if e[0] == 'each':
            h = max(vn.height(x) for x in vals)
            b = vn.bound(h)
            m = {iv: b}
            s2 = e[5]
            for A, q in B['self'].items():
                if occurs(e[4], q):
                    m2 = dict(zip((x for x, _ in e[2]), B['nest'].get(A, ())))
                    if s2 is not None or subst(e[3], m2) is not A:
                        raise Undecided("nested accumulation")
                    s2 = vn.bself(h)
                    m[q] = s2
            return ('each', ONE, ((b, N),) + tuple(
                (x, subst(n, m)) for x, n in e[2]), subst(e[3], m),
                subst(e[4], m), s2,
                AND(subst(e[1], m), subst(e[6], m)))
        if e[0] == 'blk':
            h = max(vn.height(x) for x in vals)
            if not any(occurs(x, iv) for x in vals):
                return entguard(e, truth0(N))
            raise Undecided("block write in a loop")
        raise Undecided("loop write %s" % e[0])

    def geneach(self, B, e, N):
        iv = B['iv']
        vals = entvals(e)
        h = max(vn.height(x) for x in vals)
        b = vn.bound(h)
        m = {iv: b}
        e = entsubst(e, m)
        if e[0] == 'ev':
            return ('eve', ONE, ((b, N),), e[1], e[2])
        return ('eve', ONE, ((b, N),) + e[2], AND(e[1], e[3]), e[4])

    # ------------------------------------------------------------- nodes
    def node(self, n, st):
        k = n.kind
        if k == 'load':
            a = self.ev(n.a[0])
            v = self.load(st.mem, a, self.cellty(n, a))
            for pc in [st.pc] + self.care[::-1]:
                v = vn.under(v, pc)
            self.set(n.res, v)
            return st
        if k == 'store':
            a, v = self.ev(n.a[0]), self.ev(n.a[1])
            ty = self.cellty(n, a, v)
            if ty == 'bool':
                v = truth(v)
            return St(st.pc, self.store(st.mem, a, v, ty, ONE), st.ev)
        if k == 'call' or k == 'vcall':
            return self.call(n, st)
        if k == 'atomic':
            raise Undecided("atomic operation")
        return st

    def cellty(self, n, a, v=None):
        """type of the cell a load or store accesses: a byte is a truth value
        or a character"""
        ty = vty(n.ins.ty)
        if n.ins.ty != 'i8':
            return ty
        while isinstance(a, D):
            a = a.hi
        r = lregion(self.norm(a))
        t = None
        if r and r[0] == 'param':
            t = self.prog.paramtype(self.g.root, r[1])
        elif r:
            t = self.prog.field_type(r[0], r[1])
        t = repr(t)
        if 'Bool' in t or 'bool' in t:
            return 'bool'
        if 'char' in t:
            return 'char'
        if v is not None:
            ls = list(vn.leaves(v))
            if any(x.ty == 'char' or x.k == 'num' and x not in (ZERO, ONE)
                   for x in ls):
                return 'char'
            return 'bool'
        f = n.ins.fn
        for b in f.blocks:
            for i in b.ins:
                if ('v', n.ins.res) in (i.a or ()):
                    return 'bool' if i.op == 'trunc' else 'char'
        return 'bool'

    def store(self, mem, a, v, ty, g):
        if isinstance(a, D):
            c = vn.mkD(a.at, ONE, ZERO)
            mem = self.store(mem, a.hi, v, ty, AND(g, c))
            return self.store(mem, a.lo, v, ty, AND(g, NOT(c)))
        return push(mem, ('st', g, self.norm(a), v, ty))

    def call(self, n, st):
        name = n.a[0]
        rty = vty(n.ins.ty) if n.ins.ty not in (None, 'void') else None
        raw = n.a[1:]
        if name in IGNORED or name.startswith('llvm.dbg'):
            if rty:
                self.set(n.res, sym(('io', name, n.id), rty))
            return st
        if name in NORETURN:
            self.dead.append((st.pc, name))
            return st
        args = [self.ev(x) for x in raw]
        v = vn.call(name, args)
        if v is not None:
            self.set(n.res, v)
            return st
        if name in ALLOC:
            self.nalloc += 1
            ivs = [self.bars[u]['iv'] for u in self.loopstack]
            p = sym(('new', self.nalloc) + tuple(ivs), 'ptr')
            self.allocs[self.nalloc] = None if ivs else st.pc
            self.set(n.res, p)
            mem = st.mem
            if name == 'calloc':
                mem = push(mem, ('blk', ONE, vn._idx(p, ZERO),
                                 mul(args[0], args[1]), 'all', ZERO))
            if name == 'realloc':
                raise Undecided("realloc")
            return St(st.pc, mem, st.ev)
        if name in ('memcpy', 'memmove', 'memset'):
            return self.block(n, name, args, st)
        return self.event(n, name, raw, args, rty, st)

    def block(self, n, name, args, st):
        mem = st.mem
        from effects import whole
        S = whole(n) if name != 'memset' else None
        if S is None and name != 'memset':
            S = self.structat(n, args)
        if S:
            d, s = args[0], args[1]
            for f, ty, sub_ in self.members(S):
                a, b = d, s
                for (S2, f2) in sub_:
                    a, b = fld(a, S2, f2), fld(b, S2, f2)
                v = self.load(st.mem, b, ty)
                mem = self.store(mem, a, v, ty, ONE)
            return St(st.pc, mem, st.ev)
        for a in vn.leaves(args[0]):
            if a is not args[0]:
                raise Undecided("conditional block write")
        try:
            e = self.elements(name, args, st)
        except Undecided:
            e = None
        if e is not None:
            return St(st.pc, push(mem, e), st.ev)
        dst = self.norm(args[0])
        if dst.k != 'idx':
            dst = vn._idx(dst, ZERO)
        if name == 'memset':
            if args[1] is not ZERO:
                raise Undecided("memset value")
            mem = push(mem, ('blk', ONE, dst, args[2], 'set', ZERO))
        else:
            if not isinstance(args[1], L):
                raise Undecided("conditional block source")
            src = self.norm(args[1])
            if src.k != 'idx':
                src = vn._idx(src, ZERO)
            mem = push(mem, ('blk', ONE, dst, args[2], 'copy', src))
        return St(st.pc, mem, st.ev)

    def elements(self, name, args, st):
        """a block operation on doubles or integers, element by element"""
        ty = self.elemtype(args[0]) or \
            (self.elemtype(args[1]) if name != 'memset' else None)
        if ty is None:
            return None
        N = simp(vn.div(args[2], num(SIZE[ty])))
        if any(not x.int for x in vn.leaves(N)):
            return None
        if name == 'memset' and args[1] is not ZERO or \
                name != 'memset' and not isinstance(args[1], L):
            return None
        ref = [args[0], N] + ([args[1]] if name != 'memset' else [])
        i = sym(('iv', 'blk%d' % len(self.loopstack)), 'int')
        v = ZERO
        if name != 'memset':
            v = self.load(st.mem, vn._idx(args[1], i), ty)
        h = max(vn.height(x) for x in ref + [v])
        b = vn.bound(h)
        m = {i: b}
        return ('each', ONE, ((b, N),), vn._idx(args[0], b), subst(v, m),
                None, ONE)

    def elemtype(self, p):
        if not isinstance(p, L):
            return None
        r = lregion(vn._idx(p, ZERO))
        if r is None:
            return None
        if r[0] == 'param':
            f = self.g.root
            t = self.prog.paramtype(f, r[1])
        else:
            t = self.prog.field_type(r[0], r[1])
        t = repr(t)
        return 'real' if 'double' in t else 'int' if "'int'" in t else None

    def structat(self, n, args):
        """struct assigned by a memcpy whose operand is a struct member"""
        if n.a[3].k != 'c':
            return None
        for t in (n.a[1], n.a[2]):
            if t.k == 'fld':
                ty = self.prog.field_type(t.a[1], t.a[2])
                if isinstance(ty, tuple) and ty[0] == 'struct' and \
                        ty[1] in self.prog.fieldnames and \
                        self.prog.sizeof(('named', ty[1])) == n.a[3].a[0]:
                    return ty[1]
        return None

    def members(self, S):
        out = []
        st = self.prog.structs[S]
        for f, t in zip(self.prog.fieldnames[S], st[1]):
            if isinstance(t, tuple) and t[0] == 'named':
                for g, ty, path in self.members(t[1]):
                    out.append((g, ty, ((S, f),) + path))
            else:
                out.append((f, vty(t), ((S, f),)))
        return out

    def event(self, n, name, raw, args, rty, st):
        """an opaque call; one case per buffer it may be given"""
        mod, ref = self.mr.of(name)
        par = sorted({r[1] for r in mod | ref if r[0] == 'param'})

        def go(args, c, st):
            for k in par:
                if k < len(args) and not isinstance(args[k], L):
                    t = vn.mkD(args[k].at, ONE, ZERO)
                    hi, lo = list(args), list(args)
                    hi[k], lo[k] = args[k].hi, args[k].lo
                    st, v1 = go(hi, simp(AND(c, t)), st)
                    st, v2 = go(lo, simp(AND(c, NOT(t))), st)
                    return st, vn.mkD(args[k].at, v1, v2)
            if c is ZERO:
                return st, ZERO
            return self.event1(n, name, raw, args, rty, st, c)
        st, v = go(args, ONE, st)
        if rty:
            self.set(n.res, truth(v) if rty == 'bool' else v)
        return st

    def event1(self, n, name, raw, args, rty, st, case):
        mod, ref = self.mr.of(name)
        rng = name.startswith('rand_') or name.startswith('dsfmt')
        known = name in self.mr.impl or name in self.prog.funcs
        drew = False
        if not rng:
            n0 = len(mod)
            mod = {r for r in mod if r[0] not in RNG and r not in self.mr.rng}
            ref = {r for r in ref if r[0] not in RNG and r not in self.mr.rng}
            drew = n0 > 0 and not mod
        def act(k):
            if k < len(raw):
                r = lregion(self.norm(args[k])) if isinstance(args[k], L) \
                    else None
                return r
        mod = {x for x in ((act(r[1]) if r[0] == 'param' else r)
                           for r in mod) if x}
        pref = {r[1] for r in ref if r[0] == 'param'}
        ref = {x for x in ((act(r[1]) if r[0] == 'param' else r)
                           for r in ref) if x}
        # pointers to local variables stand for the value they hold
        av = []
        for i, a in enumerate(args):
            if isinstance(a, L) and vn.fresh(vn.objroot(a)) and \
                    vn.objroot(a).a[0] == 'alloca':
                try:
                    a = apply('ref', lambda x: sym(('ref', x), 'ptr'),
                              self.load(st.mem, a, 'real'))
                except Undecided:
                    pass
            av.append(a)
        if rng:
            # the k-th draw: the generator is a counter
            k = self.load(st.mem, RNGCELL, 'int')
            st = St(st.pc, push(st.mem, ('st', case, RNGCELL, add(k, ONE),
                                         'int')), st.ev)
            ver = []
            av = av + [k]
        else:
            if drew:
                # chooses at random, and does nothing else
                k = self.load(st.mem, RNGCELL, 'int')
                st = St(st.pc, push(st.mem, ('st', case, RNGCELL,
                                             add(k, ONE), 'int')), st.ev)
                av = av + [k]
            k = self.ownidx(name)
            q = (av[k[0]], k[1]) if k is not None and \
                isinstance(av[k[0]], L) else (None, None)
            also = []
            if q[1] == 'Layer':
                also = [x for x in (self.ownerof(args[j], 'Layer')
                                    for j in pref if j != k[0] and
                                    isinstance(args[j], L)) if x is not None]
            ver = self.version(name, mod, ref, rng, St(
                simp(AND(st.pc, case)), st.mem, st.ev), q, also)
        v = apply('ev%s.%d' % (name, vn.H([entfp(x) for x in ver])),
                  lambda *xs: sym(('res', name, len(xs)) + tuple(xs) +
                                  tuple(y for e in ver for y in e),
                                  rty or 'int'), *av) \
            if all(isinstance(x, L) for x in av) or len(av) < 16 else None
        if v is None:
            raise Undecided("call %s" % name)
        ev, mem = st.ev, st.mem
        pure = known and not mod and not rng
        if not pure:
            ev = push(ev, ('ev', case, v, name, frozenset(mod)))
            if mod:
                if not isinstance(v, L):
                    def split(x, c, mem):
                        if isinstance(x, L):
                            return push(mem, ('hv', c, x, frozenset(mod)))
                        t = vn.mkD(x.at, ONE, ZERO)
                        mem = split(x.hi, simp(AND(c, t)), mem)
                        return split(x.lo, simp(AND(c, NOT(t))), mem)
                    mem = split(v, case, mem)
                else:
                    mem = push(mem, ('hv', case, v, frozenset(mod)))
        return St(st.pc, mem, ev), v

    def version(self, name, mod, ref, rng, st, q, also=()):
        """what the callee can see of earlier writes and calls"""
        out = []
        m = st.ev
        seen_ = NOT(st.pc)
        q, qk = q
        while m is not None:
            e = m.e
            if e[0] == 'bar':
                B = self.bars[e[1]]
                if any(self.clash(name, mod, ref, rng, x) and
                       not (not also and self.elsewhere(x, q, qk, B))
                       for x in B['events']):
                    out.append(('it', B['iv']))
                    break
            elif self.clash(name, mod, ref, rng, e):
                if e[0] == 'ev':
                    c = e[1]
                    if c is not ONE and simp(AND(c, st.pc)) is ZERO:
                        m = m.up
                        continue
                    p, kind = self.owner2(e[2])
                    if q is not None and p is not None and kind == qk:
                        d = self.meets(p, q, kind, True)
                        for x in also:
                            d = simp(OR(d, self.meets(p, x, kind)))
                        c = simp(AND(c, d))
                    if c is not ZERO:
                        out.append(('after', c, e[2]))
                    seen_ = simp(OR(seen_, c))
                    if seen_ is ONE or c is ONE:
                        break
                elif q is not None and self.owner2(e[4])[1] == qk and \
                        len(e[2]) == 1:
                    p = self.owner(e[4])
                    b, N = e[2][0]
                    if vn.same(p, q) is not ZERO:
                        t = self.solve(p, q, b) if occurs(p, b) else None
                        if t is None or not isinstance(t, L):
                            out.append(('afterall', e[1], 1, b, N, e[3],
                                        e[4]))
                        else:
                            mm = {b: t}
                            c = AND(AND(ige(t, ZERO), gt(N, t)),
                                    AND(e[1], subst(e[3], mm)))
                            c = simp(self.known(c))
                            if c is not ZERO:
                                out.append(('after', c, subst(e[4], mm)))
                            seen_ = simp(OR(seen_, c))
                            if seen_ is ONE:
                                break
                else:
                    out.append(('afterall', e[1], len(e[2])) + tuple(
                        y for bn in e[2] for y in bn) + (e[3], e[4]))
            m = m.up
        m = base = st.mem
        seen = set()
        while m is not None:
            e = m.e
            if e[0] == 'bar' and m.up is not None:
                base = m.up
            if e[0] == 'st' and not vn.fresh(vn.objroot(e[2])) and \
                    lregion(e[2]) in ref and e[2] not in seen:
                seen.add(e[2])
                out.append(('with', e[2], self.load(st.mem, e[2], e[4])))
            elif e[0] == 'each' and lregion(e[3]) in ref and \
                    not vn.fresh(vn.objroot(e[3])):
                out.append(self.cells(e, base))
            elif e[0] == 'blk' and lregion(e[2]) in ref and \
                    not vn.fresh(vn.objroot(e[2])):
                out.append(('withblk', e[1], e[2], e[3], e[5]))
            m = m.up
        return sorted(out, key=lambda e: repr(entfp(e))) if False else out

    def cells(self, e, mem):
        """the cells written by a loop, with their values at a call"""
        bs = e[2]
        ty = next(iter(vn.leaves(e[4]))).ty
        try:
            ivs = [sym(('iv', 'at%d.%d' % (len(self.loopstack), k)), 'int')
                   for k in range(len(bs))]
            m = {b: iv for (b, _), iv in zip(bs, ivs)}
            A = subst(e[3], m)
            Ns = [subst(N, m) for _, N in bs]
            g = subst(e[6], m)
            v = self.load(mem, A, ty)
            h = max(vn.height(x) for x in [A, g, v] + Ns)
            new = [vn.bound(h + k) for k in range(len(bs))]
            m = dict(zip(ivs, new))
            return ('witheach', e[1], len(bs)) + tuple(
                y for b, N in zip(new, Ns) for y in (b, subst(N, m))) + (
                    subst(g, m), subst(A, m), subst(v, m))
        except Undecided:
            if e[5] is not None:
                raise
            return ('witheach', e[1], len(bs)) + tuple(
                y for bn in bs for y in bn) + (e[6], e[3], e[4])

    def elsewhere(self, e, q, qk, B):
        """an event of an earlier iteration on another classifier"""
        if q is None or e[0] == 'bar':
            return False
        p, kind = self.owner2(e[2] if e[0] == 'ev' else e[4])
        if p is None or kind != qk:
            return False
        if e[0] != 'ev':
            return False
        return p is q and self.injective(p, B) or p is not q and (
            vn.same(p, q) is ZERO or self.never(q, p, B))

    def clash(self, name, mod, ref, rng, e):
        other = e[3] if e[0] == 'ev' else e[4]
        if e[0] == 'ev':
            oname, omod = e[3], e[4]
        else:
            return self.clash2(name, ref, rng, e)
        orng = oname.startswith('rand_') or oname.startswith('dsfmt')
        if rng or orng:
            return rng and orng
        common = omod & (ref | set())
        if self.family(name) != self.family(oname):
            common = {r for r in common if r[0] in CORE}
        return bool(common)

    def clash2(self, name, ref, rng, e):
        v = e[4]
        l = v if isinstance(v, L) else next(iter(vn.leaves(v)))
        oname = l.a[1] if l.k == 'sym' and l.a[0] == 'res' else None
        if oname is None:
            return False
        orng = oname.startswith('rand_') or oname.startswith('dsfmt')
        if rng or orng:
            return rng and orng
        common = self.mr.of(oname)[0] & ref
        if self.family(name) != self.family(oname):
            common = {r for r in common if r[0] in CORE}
        return bool(common)

    def family(self, name):
        if name.startswith(('CondVtbl', 'ActVtbl')):
            return 'rule'
        return name.split('.')[0] if '.' in name else ''


def truth0(N):
    return gt(N, ZERO)
