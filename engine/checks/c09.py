"""C09: the population counters are exact."""
from pop import *
from guards import must_conds, truth
import ir

RULE = ("path-sensitive linear accounting: on every path of every operation, "
        "the change of pset.num equals the change of the summed numerosity of "
        "the population and the change of pset.size equals the change of its "
        "length; a classifier leaves the list exactly when its numerosity is "
        "0 and is then handed to the kill set; the set primitives keep the "
        "counters of the set they are given")


class St(tuple):
    """(M, S, cells, vals, pend, ins): M = d(pset.num) - d(sum of num),
    S = d(pset.size) - d(length)"""
    __slots__ = ()


def mkst(M=ZERO, S=ZERO, cells=frozenset(), vals=frozenset(),
         pend=frozenset(), ins=frozenset()):
    return St((M, S, cells, vals, pend, ins))


class Account:
    def __init__(self, g, isset, neutral=()):
        global PHI
        PHI = g.phi
        self.g = g
        self.neutral = neutral
        self.isset = isset          # set address -> is the population
        self.events = 0
        self.esp = Esp(g, mkst(), self.step, self.edge, self.phis,
                       norm=self.norm)

    def norm(self, st):
        """at a loop head: the current value of a cell becomes its symbol,
        unless the difference still mentions the old one; values read before
        are unknown from here on"""
        M, S, cells, vals, pend, ins = st
        used = {q for p in (M, S) for k, _ in p for q in k}
        cells = frozenset(x for x in cells if mk('ld', x[0]) in used)
        return mkst(M, S, cells, frozenset(), pend, ins)


    def step(self, n, st):
        M, S, cells, vals, pend, ins = st
        if n.kind == 'load' and n.res is not None and n.res.k == 'vld':
            d = dict(cells)
            vd = dict(vals)
            vd[n.res] = d.get(n.a[0], psym(mk('ld', n.a[0])))
            return mkst(M, S, cells, frozenset(vd.items()), pend, ins)
        if n.kind == 'store':
            a, v = n.a
            sa, f = setaddr(a)
            vd = dict(vals)
            if sa is not None and f in ('num', 'size') and self.isset(sa):
                self.events += 1
                d = dict(cells)
                cur = d.get(a, psym(mk('ld', a)))
                new = peval(v, vd)
                dl = padd(new, cur, -1)
                d[a] = new
                cells = frozenset(d.items())
                if f == 'num':
                    M = padd(M, dl)
                else:
                    S = padd(S, dl)
                return mkst(M, S, cells, vals, pend, ins)
            if a.k == 'fld' and a.a[1:] == ('Cl', 'num'):
                c = a.a[0]
                d = dict(cells)
                cur = d.get(a, psym(mk('ld', a)))
                new = peval(v, vd)
                d[a] = new
                cells = frozenset(d.items())
                if self.outside(c) and c not in ins:
                    return mkst(M, S, cells, vals, pend, ins)
                self.events += 1
                M = padd(M, padd(new, cur, -1), -1)
                pend = frozenset(x for x in pend
                                 if not (x[0] is a and x[1] == 'test'))
                if new == ZERO:
                    pend = pend | {(a, 'unlink'), (a, 'kset')}
                elif not nonneg(padd(new, cur, -1)):
                    pend = pend | {(a, 'test')}
                return mkst(M, S, cells, vals, pend, ins)
            # links
            nx = unlinked(n)
            if nx is not None and (sa is None or self.isset(sa)):
                self.events += 1
                S = padd(S, pconst(1))
                cell = mk('fld', mk('ld', mk('fld', nx, 'Clist', 'cl')),
                          'Cl', 'num')
                d = dict(cells)
                v0 = d.get(cell)
                iszero = v0 == ZERO or (cell, 'zero') in pend
                if not iszero:
                    M = padd(M, v0 if v0 is not None else
                             psym(mk('ld', cell)))
                pend = frozenset(x for x in pend if not (
                    x[0] is cell and x[1] in ('unlink', 'zero')))
                return mkst(M, S, self.drop(cells, a), self.drop(vals, a),
                            pend, ins)
            if a.k in ('alloca', 'fld', 'idx'):
                return mkst(M, S, self.drop(cells, a), self.drop(vals, a),
                            self.anon(pend, mk('ld', a)), ins)
            return st
        if n.kind == 'call' and n.a[0] in PRIMS:
            s = n.a[2] if n.a[0] == 'clset_kill' else n.a[1]
            if n.a[0] == 'clset_add':
                c = n.a[2]
                if self.isset(s):
                    self.events += 1
                    ins = ins | {c}
                elif setname(s) == 'kset':
                    cell = mk('fld', c, 'Cl', 'num')
                    pend = frozenset(x for x in pend if not (
                        x[0] is cell and x[1] == 'kset'))
                # the counters have changed
                return mkst(M, S, self.drop2(cells, s), self.drop2(vals, s),
                            pend, ins)
            if self.isset(s):
                self.events += 1
                pend = frozenset(x for x in pend
                                 if x[1] not in ('unlink', 'zero', 'test'))
                if n.a[0] in ('clset_validate', 'clset_init', 'clset_kill',
                              'clset_free'):
                    M = S = ZERO
                if n.a[0] != 'clset_validate':
                    pend = frozenset()
                return mkst(M, S, frozenset(), frozenset(), pend, ins)
            return st
        if n.kind == 'call' and n.a[0] in self.neutral:
            return self.norm(st)
        if n.kind == 'call' and n.res is not None and fresh(n.res):
            # another object from here on
            f = lambda t: t is not None and contains(t, n.res)
            return mkst(M, S, frozenset(x for x in cells if not f(x[0])),
                        frozenset(x for x in vals if not f(x[0])),
                        frozenset((None, x[1]) if f(x[0]) else x
                                  for x in pend),
                        frozenset(x for x in ins if not f(x)))
        return st

    def outside(self, c):
        """not in the population: created here, or handed in by the caller"""
        return fresh(c) or c.k == 'arg'

    def drop(self, m, a):
        l = mk('ld', a)
        return frozenset(x for x in m if not contains(x[0], l))

    def drop2(self, m, s):
        return frozenset(x for x in m if not contains(x[0], s))

    def anon(self, pend, l):
        return frozenset((None if x[0] is not None and contains(x[0], l)
                          else x[0], x[1]) for x in pend)

    def edge(self, n, c, pol, st):
        """outcome of tests of a numerosity against zero"""
        c, pol = truth(c, pol)
        if c.k != 'cmp' or c.a[2].k != 'c' or not pol:
            return st
        M, S, cells, vals, pend, ins = st
        vs = [q for q in subterms(c.a[1]) if q.k == 'vld' and
              q.a[0].a[1:] == ('Cl', 'num')]
        if len(vs) != 1:
            return st
        cell = vs[0].a[0]
        vd = dict(vals)
        val = padd(peval(c.a[1], vd), pconst(c.a[2].a[0]), -1)
        cur = dict(cells).get(cell, psym(mk('ld', cell)))
        if val != cur:
            # the test is about an older or shifted value
            if c.a[2].a[0] != 0 or c.a[1].k != 'vld':
                df = padd(val, cur, -1)
                k = dict(df)
                if set(k) - {()}:
                    return st
                val_off = k.get((), 0)
            else:
                return st
        else:
            val_off = 0
        # (current value + val_off) OP 0
        op = c.a[0]
        zero = nonzero = False
        if op == 'eq' and val_off == 0:
            zero = True
        elif op == 'sle' and val_off == 0 or op == 'slt' and val_off == -1:
            zero = True
        elif op in ('ne', 'sgt') and val_off == 0 or \
                op == 'sge' and val_off == -1:
            nonzero = True
        if not (zero or nonzero):
            return st
        had = (cell, 'test') in pend
        pend = frozenset(x for x in pend if x != (cell, 'test'))
        if zero:
            pend = pend | {(cell, 'zero')}
            if had:
                pend = pend | {(cell, 'unlink'), (cell, 'kset')}
        return mkst(M, S, cells, vals, pend, ins)

    def phis(self, ps, st, b):
        M, S, cells, vals, pend, ins = st
        f = lambda t: any(contains(t, p) for p in ps)
        if not cells and not vals and not pend and not ins:
            return st
        return mkst(M, S, frozenset(x for x in cells if not f(x[0])),
                    frozenset(x for x in vals if not f(x[0])),
                    frozenset((None if x[0] is not None and f(x[0]) else
                               x[0], x[1]) for x in pend
                              if not (x[1] == 'zero' and x[0] is not None
                                      and f(x[0]))),
                    frozenset(x for x in ins if not f(x)))

    def final(self):
        return self.esp.states.get(self.g.exit, set()) if self.g.exit else \
            set()


def nonneg(p):
    return all(v >= 0 for _, v in p)


def unlinked(n):
    """node removed from a list by this store"""
    a, v = n.a
    if v.k == 'ld' and v.a[0].k == 'fld' and v.a[0].a[1:] == \
            ('Clist', 'next'):
        x = v.a[0].a[0]
        if islink(a) and not (a.k == 'fld' and a.a[0] is x):
            return x
    return None


PHI = None


def islink(a):
    """address of a link of a list"""
    todo, seen = [a], set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.k == 'phi' and PHI and a.a[0] in PHI:
            todo += [v for v, _ in PHI[a.a[0]].get('inc') or ()]
        elif a.k == 'sel':
            todo += a.a[1:]
        elif not (a.k == 'fld' and
                  a.a[1:] in (('Clist', 'next'), ('Set', 'list'))):
            return False
    return True


def touches(prog, f):
    """functions that change classifier sets or numerosities"""
    for b in f.blocks:
        for i in b.ins:
            if i.op == 'call' and i.x['callee'][0] == 'g' and \
                    i.x['callee'][1] in PRIMS:
                return True
            if i.op == 'store' and i.a[1][0] == 'v':
                d = f.defs.get(i.a[1][1])
                if d is not None and d.op == 'getelementptr':
                    t = str(d.ty) + str(d.a)
                    if 'Set' in str(d.ty) or "'Cl'" in str(d.ty) or \
                            'Clist' in str(d.ty) or 'XCSF' in str(d.ty):
                        return True
    return False


def show_poly(p):
    return ' + '.join(('%d' % v if not k else '%s%s' % (
        '' if v == 1 else '%d*' % v, '*'.join(str(x) for x in k)))
        for k, v in sorted(p, key=str)) or '0'


def run(R):
    prog = ir.load()
    for p in PRIMS:
        if p not in prog.funcs:
            raise ir.AnalysisError("function %s not found" % p)
    primitives(R, prog)
    called = set()
    for f in prog.funcs.values():
        called |= names.callees(f)
    cg = {n: {c for c in names.callees(f) if c in prog.funcs}
          for n, f in prog.funcs.items()}
    order = []
    done = set()

    def visit(n):
        if n in done:
            return
        done.add(n)
        for c in sorted(cg[n]):
            visit(c)
        order.append(n)
    for n in sorted(prog.funcs):
        visit(n)
    nf = ne = npath = 0
    neutral = set()
    entry = api(prog)
    R.require('operations of the Python interface', len(entry), 20)
    isset = lambda s: setname(s) == 'pset'
    kinds = {'unlink': "stays in the population list",
             'kset': "is not handed to the kill set",
             'test': "is decremented without being removed at 0"}
    for n in order:
        f = prog.funcs[n]
        if not names.own(f) or n in PRIMS or not reaches(prog, n):
            continue
        if internal(f) and n in called:
            continue            # inlined into its callers
        g = expand(prog, n, lambda q: q in neutral or not reaches(prog, q))
        bad = []
        try:
            A = Account(g, isset, neutral)
            fin = A.final()
        except Overflow as e:
            A = None
            bad.append(('drift', "the population counters drift in a loop "
                        "(%s)" % e.args[0].loc))
            fin = ()
        if A is not None and not A.events and not any(
                m.kind == 'call' and m.a[0] in neutral for m in g.nodes):
            continue
        for s in fin:
            if s[0] != ZERO:
                bad.append(('num', "on some path pset.num and the summed "
                            "numerosity change differently, by " +
                            show_poly(s[0])))
            if s[1] != ZERO:
                bad.append(('size', "on some path pset.size and the length "
                            "of the population list change differently, by "
                            + show_poly(s[1])))
            for x in s[4]:
                if x[1] in kinds:
                    bad.append((x[1], "on some path a classifier with "
                                "numerosity 0 %s (%s)" % (kinds[x[1]], x[0])))
        if bad and n in called and n not in entry:
            R.count('operations judged in their callers')
            continue
        nf += 1
        ne += A.events if A else 0
        npath += len(fin)
        if not bad:
            neutral.add(n)
        b = dict(reversed(bad))
        for k in ('num', 'size', 'unlink', 'kset', 'test', 'drift'):
            R.obligation("%s: %s (%d final states)" % (n, k, len(fin)),
                         k not in b, "%s (%s): %s" % (n, f.where(),
                                                     b.get(k)),
                         key='%s:%s' % (n, k))
    R.require('operations on the population', nf, 8)
    R.count('events', ne)
    R.count('final states', npath)
    # components never change numerosities
    vt = vtables(prog)
    slots = set()
    for v in vt.values():
        slots |= {x for x in v[1].values() if x}
    for s in sorted(slots):
        g = Expander(prog, vload=vload).expand(s)
        bad = [n for n in g.nodes if n.kind == 'store' and n.a[0].k == 'fld'
               and n.a[0].a[1:] in COUNTED]
        if bad:
            R.obligation("%s leaves counters alone" % s, False,
                         "%s changes %s (%s)" % (s, bad[0].a[0], bad[0].loc),
                         key=s + ':component')
    R.count('component operations', len(slots))


def internal(f):
    return getattr(f, 'internal', False)


_R = {}


def reaches(prog, n, seen=None):
    if n in _R:
        return _R[n]
    _R[n] = False
    f = prog.funcs.get(n)
    if f is None:
        return False
    r = n in PRIMS or touches(prog, f) or \
        any(reaches(prog, c) for c in names.callees(f) if c in prog.funcs)
    _R[n] = r
    return r


def primitives(R, prog):
    """contracts of the set primitives"""
    # clset_add
    f = prog.funcs['clset_add']
    g = expand(prog, 'clset_add')
    S, c = mk('arg', 0, f.args[0]), mk('arg', 1, f.args[1])

    class Add(Account):
        def step(self, n, st):
            st = Account.step(self, n, st)
            M, S_, cells, vals, pend, ins = st
            if n.kind == 'store':
                sa, fl = setaddr(n.a[0])
                if sa is S and fl == 'list' and fresh(n.a[1]):
                    ok = link_ok(g, n, S, c)
                    return mkst(M, padd(S_, pconst(-1)), cells, vals,
                                pend | {(None, 'linked' if ok else 'bad')},
                                ins)
            return st
    A = Add(g, lambda s: s is S)
    cn = psym(mk('ld', mk('fld', c, 'Cl', 'num')))
    for s in A.final():
        R.obligation("clset_add: num", s[0] == cn,
                     "clset_add changes set->num by %s instead of the "
                     "numerosity of the added classifier" % show_poly(s[0]),
                     key='clset_add:num')
        R.obligation("clset_add: size", s[1] == ZERO,
                     "clset_add changes set->size and the length of the list "
                     "differently, by %s" % show_poly(s[1]),
                     key='clset_add:size')
        R.obligation("clset_add: link", (None, 'linked') in s[4] and
                     (None, 'bad') not in s[4],
                     "clset_add does not put the classifier in front of the "
                     "previous list on every path", key='clset_add:link')
    R.require('paths of clset_add', len(A.final()), 1)
    # init, free, kill: counters end at 0, the list is empty
    for fn, ai in (('clset_init', 0), ('clset_free', 0), ('clset_kill', 1)):
        f = prog.funcs[fn]
        g = Expander(prog, vload=vload).expand(fn)
        S = mk('arg', ai, f.args[ai])
        last = {}

        def step(n, st):
            if n.kind == 'store':
                sa, fl = setaddr(n.a[0])
                if sa is S and fl in ('num', 'size', 'list'):
                    v = n.a[1]
                    z = 0 if v.k == 'null' or v.k == 'c' and v.a[0] == 0 \
                        else 'x' if fl != 'list' else v
                    d = dict(st)
                    d[fl] = z
                    return tuple(sorted(d.items(), key=str))
            return st

        def edge(n, c, pol, st):
            c, pol = truth(c, pol)
            if c.k == 'cmp' and c.a[0] == 'eq' and c.a[2].k == 'null':
                d = dict(st)
                d['end'] = 0
                return tuple(sorted(d.items(), key=str))
            return st
        E = Esp(g, (), step, edge)
        for st in E.states.get(g.exit, set()):
            d = dict(st)
            for fl in ('num', 'size'):
                R.obligation("%s: %s is 0" % (fn, fl), d.get(fl) == 0,
                             "%s leaves set->%s other than 0 on some path" %
                             (fn, fl), key='%s:%s' % (fn, fl))
            ok = d.get('list') == 0 or 'end' in d
            R.obligation("%s: list is empty" % fn, ok,
                         "%s leaves a list behind" % fn, key=fn + ':list')
    validate(R, prog)


def link_ok(g, n, S, c):
    """the new node holds c and is followed by the old list"""
    node = n.a[1]
    lst = mk('fld', S, 'Set', 'list')
    al = {node, mk('ld', lst)}
    same = [m for m in g.nodes if m.kind == 'store' and
            m.a[0].k == 'fld' and m.a[0].a[0] in al and
            m.a[0].a[1] == 'Clist']
    cl = {m.a[1] for m in same if m.a[0].a[2] == 'cl' and
          (m.a[0].a[0] is node or near(g, n, m))}
    nx = {m.a[1] for m in same if m.a[0].a[2] == 'next' and
          (m.a[0].a[0] is node or near(g, n, m))}
    return cl == {c} and nx and nx <= {NULL, mk('ld', lst)} and \
        (nx != {NULL} or guarded_null(g, n, lst))


def near(g, n, m):
    return m in reach_fwd([n]) and n.stack == m.stack


def guarded_null(g, n, lst):
    mc = must_conds(g)
    for c, pol in mc.get(n) or ():
        c, pol = truth(c, pol)
        if pol and c.k == 'cmp' and c.a[0] == 'eq' and c.a[2].k == 'null' \
                and c.a[1] is mk('ld', lst):
            return True
    return False


class _Now(dict):
    def get(self, x, d=None):
        return psym(mk('ld', x.a[0]))


def now(v):
    return peval(v, _Now())


def validate(R, prog):
    """clset_validate recounts: per visited node either the node is removed
    (numerosity 0) or size and num grow by 1 and its numerosity"""
    f = prog.funcs['clset_validate']
    g = expand(prog, 'clset_validate')
    S = mk('arg', 0, f.args[0])
    # iterator: the phi that starts at the list and is dereferenced for cl
    global PHI
    PHI = g.phi
    its = {}
    for n in g.nodes:
        if n.kind == 'load' and n.a[0].k == 'fld' and \
                n.a[0].a[1:] == ('Clist', 'cl'):
            x = n.a[0].a[0]
            p = x.a[0] if x.k == 'ld' else x
            if p.k == 'phi':
                its[x] = p
    R.require('loops of clset_validate', len(its), 1)
    it, itphi = sorted(its.items(), key=lambda q: q[1].a[0])[0] if its else \
        (NULL, NULL)
    if not its:
        return
    cl = mk('ld', mk('fld', it, 'Clist', 'cl'))
    num = mk('fld', cl, 'Cl', 'num')
    accs = {}
    for fl in ('size', 'num'):
        a = mk('fld', S, 'Set', fl)
        accs[fl] = a
    # accumulators kept in local variables and stored at the end
    loc = {}
    for n in g.nodes:
        if n.kind == 'store':
            for fl, a in accs.items():
                if n.a[0] is a and n.a[1].k == 'phi':
                    loc[fl] = n.a[1]

    # state: (phase, dsize, dnum, unlinked, zero known, cells)
    def step(n, st):
        ph, ds, dn, un, z, vals = st
        if n.kind == 'load' and n.res is not None and n.res.k == 'vld':
            return st
        if n.kind == 'store':
            a, v = n.a
            for fl, acc in accs.items():
                if a is acc:
                    p = poly(v)
                    if v.k == 'phi' and loc.get(fl) is v:
                        return st
                    self_ = [q for q in subterms(v) if q.k == 'vld' and
                             q.a[0] is acc]
                    if self_:
                        d = padd(now(v), psym(mk('ld', acc)), -1)
                        if fl == 'size':
                            ds = padd(ds, d)
                        else:
                            dn = padd(dn, d)
                    else:
                        # assignment
                        if fl == 'size':
                            ds = now(v) if ph == 'pre' else \
                                psym(mk('undef'))
                        else:
                            dn = now(v) if ph == 'pre' else \
                                psym(mk('undef'))
                        vals = vals | {fl}
                    return (ph, ds, dn, un, z, vals)
            if unlinked(n) is not None:
                x = unlinked(n)
                return (ph, ds, dn, un + (1 if x is it else 5), z, vals)
        return st

    def edge(n, c, pol, st):
        c, pol = truth(c, pol)
        ph, ds, dn, un, z, vals = st
        if pol and c.k == 'cmp':
            if c.a[0] == 'eq' and c.a[1] is cl and c.a[2].k == 'null':
                z = 1
            if c.a[1].k == 'vld' and c.a[1].a[0] is num and \
                    c.a[2].k == 'c' and (
                        c.a[2].a[0] == 0 and c.a[0] in ('eq', 'sle') or
                        c.a[2].a[0] == 1 and c.a[0] == 'slt'):
                z = 1
        return (ph, ds, dn, un, z, vals)
    bad = []
    iters = set()

    # values of the local accumulators along the path
    accphi = set()
    todo = list(loc.values())
    while todo:
        p = todo.pop()
        if p in accphi:
            continue
        accphi.add(p)
        for v, _ in g.phi[p.a[0]].get('inc') or ():
            todo += [q for q in subterms(v) if q.k == 'phi']

    def lval(v, pv):
        out = ZERO
        for mon, c in now(v):
            if len(mon) == 1 and mon[0] in pv:
                out = padd(out, frozenset((k, q * c)
                                          for k, q in pv[mon[0]]))
            else:
                out = padd(out, frozenset([(mon, c)]))
        return out

    def phis(ps, st, b):
        ph, ds, dn, un, z, vals = st
        if not any(p in accphi for p in ps) and itphi not in ps:
            return st
        pv = {x[0]: x[1] for x in vals if isinstance(x, tuple)}
        fl_ = {x for x in vals if not isinstance(x, tuple)}
        new = dict(pv)
        for p in ps:
            if p in accphi:
                for v, bn in g.phi[p.a[0]].get('inc') or ():
                    if b is not None and bn == b[1]:
                        new[p] = lval(v, pv)
        if itphi in ps:
            for fl, p in loc.items():
                if p not in ps:
                    continue
                d = new.get(p, psym(mk('undef')))
                if ph == 'pre':
                    fl_.add(fl)
                else:
                    d = padd(d, psym(p), -1)
                if fl == 'size':
                    ds = d
                else:
                    dn = d
            vals = frozenset(fl_)
            if ph == 'pre':
                if ds != ZERO or dn != ZERO or vals != {'size', 'num'}:
                    bad.append("counting starts with size %s and num %s" %
                               (show_poly(ds) if 'size' in vals else '?',
                                show_poly(dn) if 'num' in vals else '?'))
            else:
                keep = (ds == pconst(1) and un == 0 and
                        dn == psym(mk('ld', num)) and not z)
                gone = (ds == ZERO and dn == ZERO and un == 1 and z)
                iters.add((keep, gone))
                if not keep and not gone:
                    bad.append("a visited classifier changes size by %s, num "
                               "by %s, is %s%s" % (
                                   show_poly(ds), show_poly(dn),
                                   'removed' if un else 'kept',
                                   '' if bool(z) == bool(un) else
                                   ' although its numerosity is %s0' %
                                   ('' if z else 'not known to be ')))
            return ('in', ZERO, ZERO, 0, 0, frozenset())
        return (ph, ds, dn, un, z, frozenset(fl_) | frozenset(new.items()))
    E = Esp(g, ('pre', ZERO, ZERO, 0, 0, frozenset()), step, edge, phis)
    R.obligation("clset_validate: recount", not bad,
                 "clset_validate: " + (bad[0] if bad else ''),
                 key='clset_validate:recount')
    R.obligation("clset_validate: keeps and removes",
                 {(True, False), (False, True)} <= iters or bad,
                 "clset_validate never %s classifiers" %
                 ('keeps' if (True, False) not in iters else 'removes'),
                 key='clset_validate:both')
    for st in E.states.get(g.exit, set()):
        ph, ds, dn, un, z, vals = st
        ok = ds == ZERO and dn == ZERO and not un
        R.obligation("clset_validate: exit", ok,
                     "clset_validate changes the counters after the last "
                     "classifier", key='clset_validate:exit')
