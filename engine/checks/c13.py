"""C13: parallel iterations are independent of one another."""
from pop import *
from checks.c12 import written, created, base, member
import ir

RULE = ("effect analysis of every OpenMP region: an iteration writes only "
        "storage reached through the element of a list of distinct "
        "classifiers selected by its own index (through every implementation "
        "of every operation it dispatches to), locals, or what it created; it "
        "reads no other classifier; no global or static state is written")

# library functions with hidden shared state
BADLIB = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48',
          'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam',
          'setenv', 'putenv', 'strerror', 'lgamma', 'setlocale'}
KMP_FORK = ('__kmpc_fork_call', '__kmpc_fork_call_if', '__kmpc_fork_teams')


def leaves(g, t, seen=None):
    """what the base of an address may be"""
    if seen is None:
        seen = set()
    b = base(t)
    while b.k == 'cast':
        b = base(b.a[-1])
    if b in seen:
        return
    seen.add(b)
    if b.k == 'phi':
        inc = (g.phi.get(b.a[0]) or {}).get('inc') or []
        for v, _ in inc:
            yield from leaves(g, v, seen)
    elif b.k == 'sel':
        yield from leaves(g, b.a[1], seen)
        yield from leaves(g, b.a[2], seen)
    elif b.k == 'alloca' and t is not b and derefs(t, b):
        if not hasattr(g, 'held2'):
            g.held2 = {}
            for n in g.nodes:
                if n.kind == 'store':
                    r = n.a[0]
                    while r.k in ('idx', 'fld'):
                        r = r.a[0]
                    if r.k == 'alloca':
                        g.held2.setdefault(r, set()).add(n.a[1])
        for v in g.held2.get(b, ()):
            if v.k not in ('c', 'fc', 'op', 'cmp'):
                yield from leaves(g, v, seen)
    else:
        yield b


def derefs(a, b):
    while a is not b:
        if a.k == 'ld':
            return True
        a = a.a[-1] if a.k == 'cast' else a.a[0]
    return False


def through_list(t):
    """a classifier reached through a set's list"""
    while t.k in ('idx', 'fld', 'ld', 'cast'):
        if t.k == 'fld' and t.a[1:] == ('Clist', 'cl'):
            return True
        t = t.a[-1] if t.k == 'cast' else t.a[0]
    return False


class Summary:
    def __init__(self):
        self.w = {}         # argument index -> witness
        self.r = {}         # argument index through which sets are read
        self.g = []         # (what, witness): shared state written


def global_name(b):
    return str(b.a[0]).split('@')[0]


class Effects:
    """what the implementation of every slot writes, by argument"""

    def __init__(self, prog, R):
        self.prog, self.R = prog, R
        self.impls = {}
        for v, (ty, slots) in vtables(prog).items():
            for nm, f in slots.items():
                if f:
                    self.impls.setdefault(ty + '.' + nm, []).append((v, f))
        self.ptr = {}
        self.graphs, self.sum = {}, {}
        self.busy = set()

    def fnptr(self, slot):
        """functions ever stored in a function pointer member"""
        if slot in self.impls:
            return self.impls[slot]
        if slot not in self.ptr:
            st, fl = slot.split('.')
            out = []
            for nm, f in self.prog.funcs.items():
                if not names.own(f) or 'omp_outlined' in nm:
                    continue
                g = None
                for b in f.blocks.values() if isinstance(f.blocks, dict) \
                        else f.blocks:
                    for i in b.ins:
                        if i.op == 'store' and ("'g'" in str(i)):
                            g = True
                if g:
                    for n in self.graph(nm).nodes:
                        if n.kind == 'store' and n.a[0].k == 'fld' and \
                                n.a[0].a[1:] == (st, fl) and \
                                n.a[1].k == 'fn':
                            out.append((n.a[1].a[0], n.a[1].a[0]))
            self.ptr[slot] = sorted(set(out))
        return self.ptr[slot]

    def graph(self, f):
        if f not in self.graphs:
            self.graphs[f] = Expander(self.prog, vload=vload).expand(f)
        return self.graphs[f]

    def of(self, f):
        if f in self.sum:
            return self.sum[f]
        s = self.sum[f] = Summary()
        if f not in self.prog.funcs:
            return s
        g = self.graph(f)
        for _ in range(2):
            collect(self, g, s, f)
        return s

    def slot(self, slot):
        return [(v, f, self.of(f)) for v, f in self.fnptr(slot)]


def note(eff, g, s, addr, loc, what='writes'):
    for b in leaves(g, addr):
        if b.k == 'arg':
            s.w.setdefault(b.a[0], '%s %s (%s)' % (what, str(addr)[:80], loc))
        elif b.k == 'g':
            s.g.append((global_name(b), loc))


def collect(eff, g, s, f):
    s.g = []
    for n in g.nodes:
        for a in written(n):
            if not created(g, a):
                note(eff, g, s, a, n.loc)
        if n.kind == 'load' and through_list(n.a[0]):
            for b in leaves(g, n.a[0]):
                if b.k == 'arg':
                    s.r.setdefault(b.a[0], n.loc)
        if n.kind == 'call' and n.a[0] in BADLIB:
            s.g.append((n.a[0] + '()', n.loc))
        if n.kind == 'vcall':
            for v, h, q in eff.slot(n.a[0]):
                for i, w in q.w.items():
                    if 1 + i < len(n.a) and not created(g, n.a[1 + i]):
                        for b in leaves(g, n.a[1 + i]):
                            if b.k == 'arg':
                                s.w.setdefault(b.a[0], w)
                            elif b.k == 'g':
                                s.g.append((global_name(b), w))
                for i, w in q.r.items():
                    if 1 + i < len(n.a):
                        for b in leaves(g, n.a[1 + i]):
                            if b.k == 'arg':
                                s.r.setdefault(b.a[0], w)


def omp_alloca(t):
    return t.k == 'alloca' and '.omp.' in str(t.a[1])


def ivs(g):
    """induction variables of work-sharing loops"""
    out = set()
    for u, i in g.phi.items():
        for v, _ in i.get('inc') or []:
            if v.k in ('ld', 'vld') and omp_alloca(v.a[0]) and \
                    'lb' in str(v.a[0].a[1]):
                out.add(mk('phi', u))
    return out


def injective(g, t, iv):
    """t takes a different value in every iteration"""
    pl = dict(poly(t))
    mine = [m for m in pl if iv in m]
    if len(mine) != 1 or mine[0].count(iv) != 1 or pl[mine[0]] == 0:
        return False
    fac = [x for x in mine[0] if x is not iv]
    rest = [m for m in pl if iv not in m and m != ()]
    if not fac:
        return all(not variant(g, x) for m in rest for x in m)
    # iv * D + j with j < D
    if len(fac) == 1 and len(rest) == 1 and len(rest[0]) == 1 and \
            abs(pl[mine[0]]) == 1 and pl[rest[0]] == 1 and pl.get((), 0) == 0:
        j = rest[0][0]
        return below(g, j, fac[0])
    return False


def variant(g, t):
    return any(x.k in ('phi', 'call', 'callref', 'alloca') for x in subterms(t))


def below(g, j, d):
    if j.k != 'phi':
        return False
    i = g.phi.get(j.a[0]) or {}
    if i.get('kind') != 'ind':
        return False
    for n in g.nodes:
        for s, c in n.succ:
            if c and c[0].k == 'cmp' and c[0].a[0] in ('slt', 'ult') and \
                    c[0].a[1] is j and c[0].a[2] is d and c[1]:
                return True
    return False


def private(g, t, iv):
    """(shared array, index) of the per-iteration element t is reached by"""
    while t.k in ('idx', 'fld', 'ld', 'cast'):
        if t.k == 'idx' and any(injective(g, t.a[1], v) for v in iv):
            return t.a[0]
        t = t.a[-1] if t.k == 'cast' else t.a[0]
    return None


def distinct(G, arr):
    """the elements stored in arr are the members of one list, in order"""
    sts = [n for n in G.nodes if n.kind == 'store' and n.a[0].k == 'idx' and
           n.a[0].a[0] is arr]
    if not sts:
        return None, 'no element is stored in it'
    for n in sts:
        v = n.a[1]
        if v.k == 'null':
            continue
        if v.k in ('ld', 'vld') and v.a[0].k == 'fld' and \
                v.a[0].a[1:] == ('Clist', 'cl'):
            v = v.a[0].a[0]
        info = G.phi.get(v.a[0]) if v.k == 'phi' else None
        if not info:
            return False, '%s is stored in every element (%s)' % (v, n.loc)
        seen, todo, chain = set(), [v], False
        while todo:
            w = todo.pop()
            if w in seen:
                continue
            seen.add(w)
            if w.k == 'phi':
                todo += [x for x, _ in (G.phi.get(w.a[0]) or {}).get('inc')
                         or []]
            elif w.k in ('ld', 'vld') and w.a[0].k == 'fld' and \
                    w.a[0].a[1:] == ('Clist', 'next') and w.a[0].a[0] in seen:
                chain = True
        if not chain:
            return False, 'its elements are not the successive members of a ' \
                'list (%s)' % n.loc
        if again(n, v):
            return False, 'a member of the list can be stored twice (%s)' % \
                n.loc
    return True, ''


def again(n, v):
    """n can be reached again without moving on from v"""
    nxt = mk('fld', v, 'Clist', 'next')
    seen, todo = set(), [q for q, _ in n.succ]
    while todo:
        q = todo.pop()
        if q is n:
            return True
        if q in seen or q.kind == 'load' and q.a[0] is nxt:
            continue
        seen.add(q)
        todo += [x for x, _ in q.succ]
    return False


def run(R):
    prog = ir.load(openmp=True)
    eff = Effects(prog, R)
    regions = {}
    for nm, f in sorted(prog.funcs.items()):
        if not names.own(f):
            continue
        for b in (f.blocks.values() if isinstance(f.blocks, dict)
                  else f.blocks):
            for i in b.ins:
                if i.op == 'call' and any(k in str(i.x) for k in KMP_FORK):
                    regions.setdefault(nm, 0)
                    regions[nm] += 1
    nreg = 0
    done = set()
    for parent in regions:
        G = eff.graph(parent)
        forks = [n for n in G.nodes if n.kind == 'call' and n.a[0] in KMP_FORK]
        if not forks:
            raise ir.AnalysisError("parallel region of %s not found" % parent)
        for fk in forks:
            body = [x for x in fk.a[1:] if isinstance(x, T) and x.k == 'fn']
            if not body:
                raise ir.AnalysisError("body of the region in %s unknown" %
                                       parent)
            bn = body[0].a[0]
            act = list(fk.a[fk.a.index(body[0]) + 1:])
            f = prog.funcs[bn]
            nreg += 1
            region(R, eff, prog, parent, G, bn, act, nreg)
    R.require('parallel regions', nreg, 1)
    R.count('operations summarised', len(eff.sum))
    # the dispatched operations themselves
    for f, s in sorted(dict(eff.sum).items()):
        seen = set()
        for what, loc in s.g:
            rng = 'dsfmt' in what.lower() or generator(eff, what)
            k = 'random numbers' if rng else what
            if k in seen:
                continue
            seen.add(k)
            R.obligation("%s: %s" % (f, k), False,
                         "%s (%s), which parallel iterations reach, %s without "
                         "synchronisation (%s)" % (
                             f, prog.funcs[f].where(),
                             'draws from the shared random number generator'
                             if rng else 'changes the shared ' + what, loc),
                         key='%s:%s' % (f, 'rng' if rng else what))
        if not seen:
            R.obligation("%s writes no shared state" % f, True)


def generator(eff, what):
    """a static variable of a random number function"""
    f = what.split('.')[0]
    return '.' in what and f in eff.prog.funcs and \
        any('dsfmt' in w.lower() for w, _ in eff.of(f).g)


def region(R, eff, prog, parent, G, bn, act, k):
    g = eff.graph(bn)
    f = prog.funcs[bn]
    iv = ivs(g)
    where = f.where().split(' ')[0]
    what = 'region of %s' % parent
    if not iv:
        raise ir.AnalysisError("%s: no work-sharing loop recognised" % what)
    # arguments after the two thread ids correspond to the fork's operands
    formal = {}
    for i, a in enumerate(f.args[2:]):
        if i < len(act):
            formal[i + 2] = act[i]
    arrays = set()
    bad = {}

    def is_private(t):
        arr = private(g, t, iv)
        if arr is not None:
            b = base(arr)
            arrays.add(arr)
            return True
        return False

    locked = lockset(g)
    nw = 0
    for n in g.nodes:
        for a in written(n):
            nw += 1
            if created(g, a) or is_private(a):
                continue
            if n in locked and commutes(n) or n.kind == 'atomic' and \
                    commutes(n):
                continue
            for b in leaves(g, a):
                if b.k in ('arg', 'g'):
                    bad.setdefault(
                        'write', "%s: iterations of the parallel loop (%s) "
                        "write the shared %s (%s)" %
                        (parent, where, short(a), n.loc))
        if n.kind in ('load',) and through_list(n.a[0]) and \
                not is_private(n.a[0]):
            bad.setdefault('read', "%s: an iteration of the parallel loop "
                           "(%s) reads another classifier, %s (%s)" %
                           (parent, where, short(n.a[0]), n.loc))
        if n.kind == 'call' and n.a[0] in BADLIB:
            bad.setdefault('lib', "%s: the parallel loop (%s) calls %s (%s)" %
                           (parent, where, n.a[0], n.loc))
        if n.kind == 'vcall':
            R.count('dispatches')
            impl = eff.slot(n.a[0])
            if not impl:
                raise ir.AnalysisError("no implementation of " + n.a[0])
            for v, h, q in impl:
                ok = True
                for i, w in q.w.items():
                    if 1 + i >= len(n.a):
                        continue
                    t = n.a[1 + i]
                    if created(g, t) or is_private(t):
                        continue
                    ok = False
                    R.obligation("%s: %s" % (what, h), False,
                                 "%s: %s, reached from the parallel loop (%s), "
                                 "%s, which is shared by all iterations" % (
                                     parent, h, where, w),
                                 key='%s:%s:w%d' % (parent, h, i))
                for i, w in q.r.items():
                    if 1 + i < len(n.a) and not is_private(n.a[1 + i]):
                        ok = False
                        R.obligation("%s: %s reads" % (what, h), False,
                                     "%s: %s, reached from the parallel loop "
                                     "(%s), reads other classifiers (%s)" % (
                                         parent, h, where, w),
                                     key='%s:%s:r%d' % (parent, h, i))
                if ok:
                    R.obligation("%s: %s confined" % (what, h), True)
    R.count('writes in regions', nw)
    for kind in ('write', 'read', 'lib'):
        R.obligation("%s: %s" % (what, kind), kind not in bad, bad.get(kind),
                     key='%s:%s' % (parent, kind))
    # elements are distinct
    for arr in sorted(arrays, key=str):
        b = arr
        while b.k in ('ld', 'vld', 'cast'):
            b = b.a[-1] if b.k == 'cast' else b.a[0]
        if b.k != 'arg' or b.a[0] not in formal:
            continue
        real = formal[b.a[0]]
        if real.k != 'alloca':
            continue
        ok, why = distinct(G, real)
        if ok is None:
            continue
        R.obligation("%s: elements of %s are distinct" % (what, short(arr)),
                     ok, "%s: iterations of the parallel loop (%s) may share a "
                     "classifier: %s" % (parent, where, why),
                     key='%s:distinct' % parent)


def short(t):
    return str(t)[:70]


def lockset(g):
    """nodes inside a critical section or reduction"""
    def tr(n, s):
        if n.kind == 'call':
            c = n.a[0]
            if c in ('__kmpc_critical', '__kmpc_critical_with_hint',
                     '__kmpc_reduce', '__kmpc_reduce_nowait', 'omp_set_lock'):
                return True
            if c in ('__kmpc_end_critical', '__kmpc_end_reduce',
                     '__kmpc_end_reduce_nowait', 'omp_unset_lock'):
                return False
        return s
    st = forward(g, False, tr, lambda a, b: a and b, None)
    return {n for n in g.nodes if st.get(n)}


def commutes(n):
    """an integer sum: the order of the iterations does not matter"""
    if n.kind == 'atomic':
        op = str(getattr(n.ins, 'x', ''))
        return ('add' in op or 'or' in op or 'and' in op) and 'f' not in \
            op.split(' ')[0]
    v = n.a[1]
    return v.k == 'op' and v.a[0] in ('add', 'or', 'and')
