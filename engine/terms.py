"""Symbolic terms and inlined control-flow graphs over the IR.

A function is expanded into a graph of effect nodes (stores, calls of
external/opaque functions, calls through a vtable slot, returns) whose operands
are interned terms over the function's arguments.  Helper functions are
inlined, so extracting or merging helpers does not change the result; casts
are transparent; list walks and counted loops are recognised from their phi
nodes rather than from the loop syntax.
"""
import sys
from ir import AnalysisError

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('k', 'a', 'n')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _cnt[0] += 1
        t.n = _cnt[0]
        _tab[key] = t
    return t


def C(v):
    return mk('c', v)


NULL = mk('null')
UNDEF = mk('undef')


def show(t, d=0):
    if d > 12:
        return '...'
    if not isinstance(t, T):
        return str(t)
    k, a = t.k, t.a
    s = lambda x: show(x, d + 1)
    if k == 'arg':
        return a[1] if len(a) > 1 and a[1] else 'arg%d' % a[0]
    if k == 'c' or k == 'fc':
        return str(a[0])
    if k == 'fld':
        return '%s->%s' % (s(a[0]), a[2])
    if k == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if k == 'ld':
        if a[0].k in ('fld', 'idx'):
            return s(a[0])
        return '*%s' % s(a[0])
    if k == 'g':
        return '@' + a[0]
    if k == 'fn':
        return '&' + a[0]
    if k == 'str':
        return repr(a[0])
    if k == 'call':
        return '%s(%s)#%d' % (a[1], ', '.join(s(x) for x in a[2:]), a[0])
    if k == 'alloca':
        return '&%s' % a[1]
    if k == 'phi':
        return 'phi%d' % a[0]
    if k in ('op', 'cmp'):
        return '(%s %s)' % (a[0], ' '.join(s(x) for x in a[1:]))
    if k == 'cast':
        return '(%s)%s' % (a[0], s(a[1]))
    if not a:
        return k
    return '%s(%s)' % (k, ', '.join(s(x) for x in a))


COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}


def mkop(op, x, y):
    if x.k == 'c' and y.k == 'c':
        a, b = x.a[0], y.a[0]
        if op == 'add':
            return C(a + b)
        if op == 'sub':
            return C(a - b)
        if op == 'mul':
            return C(a * b)
        if op == 'or':
            return C(a | b)
        if op == 'and':
            return C(a & b)
        if op == 'shl' and 0 <= b < 64:
            return C(a << b)
    if op == 'sub' and y.k == 'c':
        return mkop('add', x, C(-y.a[0]))
    if op in COMM and x.n > y.n:
        x, y = y, x
    if op == 'add':
        if x.k == 'c' and x.a[0] == 0:
            return y
        if y.k == 'c' and y.a[0] == 0:
            return x
    if op == 'mul':
        if x.k == 'c' and x.a[0] == 1:
            return y
        if y.k == 'c' and y.a[0] == 1:
            return x
    return mk('op', op, x, y)


SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge',
        'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'oeq': 'oeq', 'une': 'une', 'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge',
        'oge': 'ole'}


# ------------------------------------------------------------------ graph

class Node:
    __slots__ = ('id', 'kind', 'a', 'ins', 'stack', 'succ', 'pred', 'res',
                 'fn')

    def __repr__(self):
        return "<%d %s %s>" % (self.id, self.kind, self.a)

    @property
    def loc(self):
        return self.ins.loc if self.ins is not None else '?'


class Graph:
    def __init__(self, prog, root):
        self.prog = prog
        self.root = root
        self.nodes = []
        self.phi = {}       # uid -> {'inc': [(term, predinfo)], ...}
        self.entry = None
        self.exit = None
        self.ret = None
        self.insts = []     # (uid, fn, stack)
        self.bbnode = {}    # (inst uid, block name) -> node
        self.tailblk = {}   # (tail node id, head node id) -> block names
        self.callsites = 0

    def node(self, kind, a=(), ins=None, stack=(), fn=None):
        n = Node()
        n.id = len(self.nodes)
        n.kind = kind
        n.a = a
        n.ins = ins
        n.stack = stack
        n.succ = []
        n.pred = []
        n.res = None
        n.fn = fn
        self.nodes.append(n)
        return n

    def edge(self, a, b, cond=None):
        a.succ.append((b, cond))
        b.pred.append((a, cond))

    def effects(self, *kinds):
        return [n for n in self.nodes if n.kind in kinds]


NORETURN = {'exit', 'abort', '_exit', '__assert_fail', 'llvm.trap'}


class Expander:
    def __init__(self, prog, opaque=(), maxdepth=40, maxnodes=200000,
                 vload=None):
        self.prog = prog
        # loads whose value is told apart per instruction: 'vld' terms
        self.vload = vload
        self.opaque = opaque if callable(opaque) else \
            (lambda f, s=frozenset(opaque): f.name in s or f.src in s)
        self.maxdepth = maxdepth
        self.maxnodes = maxnodes

    def expand(self, fname, args=None):
        f = self.prog.funcs.get(fname)
        if f is None:
            raise AnalysisError("function %s not found" % fname)
        g = Graph(self.prog, f)
        self.g = g
        self.uid = 0
        if args is None:
            args = [mk('arg', i, n) for i, n in enumerate(f.args)]
        en, ex, ret = self._fn(f, args, ())
        g.entry, g.exit, g.ret = en, ex, ret
        # reachable nodes only
        seen = {en}
        st = [en]
        while st:
            n = st.pop()
            for s, _ in n.succ:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        g.nodes = [n for n in g.nodes if n in seen]
        for n in g.nodes:
            n.pred = [(p, c) for p, c in n.pred if p in seen]
        if ex not in seen:
            g.exit = None
        return g

    # -- one function instance
    def _fn(self, f, args, stack):
        g = self.g
        if len(g.nodes) > self.maxnodes:
            raise AnalysisError("expansion of %s too large" % g.root.name)
        self.uid += 1
        inst = _Inst(self, f, args, stack, self.uid)
        g.insts.append((self.uid, f, stack))
        exitn = g.node('fexit', (f.name,), None, stack, f)
        heads = {}
        tails = {}
        rets = []
        for b in f.blocks:
            heads[b] = g.node('bb', (f.name, b.name), b.ins[0], stack, f)
            g.bbnode[inst.uid, b.name] = heads[b]
        for b in f.blocks:
            cur = heads[b]
            dead = False
            for ins in b.ins:
                op = ins.op
                if op == 'store':
                    n = g.node('store', (inst.val(ins.a[1]),
                                         inst.val(ins.a[0])), ins, stack, f)
                    g.edge(cur, n)
                    cur = n
                elif op == 'call' or op == 'invoke':
                    cur, dead = self._call(inst, ins, cur, stack)
                    if dead:
                        break
                elif op == 'load':
                    n = g.node('load', (inst.val(ins.a[0]),), ins, stack, f)
                    n.res = inst.ssa(ins.res)
                    g.edge(cur, n)
                    cur = n
                elif op in ('atomicrmw', 'cmpxchg'):
                    n = g.node('atomic', tuple(inst.val(x) for x in ins.a),
                               ins, stack, f)
                    g.edge(cur, n)
                    cur = n
                elif op == 'ret':
                    rv = inst.val(ins.a[0]) if ins.a else None
                    n = g.node('ret', (rv,), ins, stack, f)
                    g.edge(cur, n)
                    g.edge(n, exitn)
                    rets.append((rv, n))
                    dead = True
                    break
                elif op == 'unreachable':
                    dead = True
                    break
            if dead:
                continue
            tails[b] = cur
        for b, cur in tails.items():
            t = b.ins[-1]
            if t.op == 'br':
                if len(t.x) == 1:
                    g.edge(cur, heads[f.bb[t.x[0]]])
                else:
                    c = inst.val(t.a[0])
                    if c.k == 'c':
                        g.edge(cur, heads[f.bb[t.x[0 if c.a[0] else 1]]])
                    else:
                        g.edge(cur, heads[f.bb[t.x[0]]], (c, True))
                        g.edge(cur, heads[f.bb[t.x[1]]], (c, False))
            elif t.op == 'switch':
                v = inst.val(t.a[0])
                if v.k == 'c':
                    tgt = dict(t.x[1]).get(v.a[0], t.x[0])
                    g.edge(cur, heads[f.bb[tgt]])
                else:
                    bytgt = {}
                    for cv, tg in t.x[1]:
                        bytgt.setdefault(tg, []).append(cv)
                    allv = tuple(cv for cv, _ in t.x[1])
                    for tg, vs in bytgt.items():
                        if tg == t.x[0]:
                            rest = tuple(x for x in allv if x not in vs)
                            continue
                        g.edge(cur, heads[f.bb[tg]],
                               (mk('in', v, tuple(vs)), True))
                    d = tuple(x for x in allv
                              if x not in bytgt.get(t.x[0], []))
                    g.edge(cur, heads[f.bb[t.x[0]]],
                           (mk('in', v, d), False))
            elif t.op == 'invoke':
                for x in t.x['targets'][:1]:
                    g.edge(cur, heads[f.bb[x]])
            for s, _ in cur.succ:
                g.tailblk.setdefault((cur.id, s.id), b.name)
        inst.finish_phis()
        rv = None
        vals = {r for r, _ in rets}
        if len(vals) == 1:
            rv = next(iter(vals))
        elif len(vals) > 1:
            self.uid += 1
            rv = mk('phi', self.uid)
            g.phi[self.uid] = {'inc': [(r, n) for r, n in rets],
                               'fn': f, 'kind': 'ret', 'ins': None}
        return heads[f.blocks[0]], exitn, rv

    def _call(self, inst, ins, cur, stack):
        g = self.g
        g.callsites += 1
        cal = ins.x['callee']
        args = [inst.val(x) for x in ins.a]
        f = None
        slot = None
        name = None
        if cal[0] == 'g':
            name = cal[1]
            f = self.prog.funcs.get(name)
        else:
            ct = inst.val(cal)
            if ct.k == 'fn':
                name = ct.a[0]
                f = self.prog.funcs.get(name)
            elif ct.k in ('ld', 'vld') and ct.a[0].k == 'fld':
                slot = '%s.%s' % (ct.a[0].a[1], ct.a[0].a[2])
                name = slot
            else:
                name = '<indirect>'
                slot = '<indirect>'
        if f is not None and name not in NORETURN and \
                not self.opaque(f) and len(stack) < self.maxdepth and \
                f.name not in [s[0] for s in stack] and f is not g.root:
            en, ex, ret = self._fn(f, args, stack + ((f.name, ins),))
            n = g.node('enter', (f.name,), ins, stack, inst.f)
            n.a = (f.name,) + tuple(args)
            g.edge(cur, n)
            g.edge(n, en)
            inst.memo[ins.res] = ret if ret is not None else UNDEF
            return ex, False
        self.uid += 1
        kind = 'vcall' if slot else 'call'
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            name = 'memcpy'
            args = args[:3]
        elif name.startswith('llvm.memset'):
            name = 'memset'
            args = args[:3]
        elif name.startswith('llvm.fmuladd'):
            r = mkop('fadd', mkop('fmul', args[0], args[1]), args[2])
            inst.memo[ins.res] = r
            return cur, False
        elif name.startswith('llvm.'):
            if ins.res is not None:
                inst.memo[ins.res] = mk('op', name.split('.')[1], *args)
            return cur, False
        if slot and cal[0] != 'g' and slot != '<indirect>':
            vobj = inst.val(cal)
        res = mk('call', self.uid, name, *args)
        n = g.node(kind, (name,) + tuple(args), ins, stack, inst.f)
        n.res = res
        if ins.res is not None:
            inst.memo[ins.res] = res
        g.edge(cur, n)
        if name in NORETURN:
            return n, True
        return n, False


class _Inst:
    def __init__(self, ex, f, args, stack, uid):
        self.ex = ex
        self.f = f
        self.uid = uid
        self.stack = stack
        self.memo = {}
        self.pending = []
        for i, nm in enumerate(f.args):
            self.memo[nm] = args[i] if i < len(args) else UNDEF

    def val(self, o):
        k = o[0]
        if k == 'v':
            return self.ssa(o[1])
        if k == 'c':
            return C(o[1])
        if k == 'fc':
            return mk('fc', o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            if o[1] in self.ex.prog.funcs or o[1] in self.ex.prog.decls:
                return mk('fn', o[1])
            s = self.ex.prog.cstr(o[1])
            g = self.ex.prog.globals.get(o[1])
            if s is not None and g['const']:
                return mk('str', s)
            return mk('g', o[1])
        if k == 'cgep':
            return self.gep(o[1], self.val(o[2]),
                            [self.val(x) for x in o[3]])
        return UNDEF

    def gep(self, ty, base, idx):
        prog = self.ex.prog
        t = base
        if not (idx[0].k == 'c' and idx[0].a[0] == 0):
            t = mkidx(t, idx[0])
        for ix in idx[1:]:
            if isinstance(ty, tuple) and ty[0] == 'named':
                sn = ty[1]
                names = prog.fieldnames.get(sn)
                st = prog.structs[sn]
                i = ix.a[0]
                fn = names[i] if names else 'f%d' % i
                t = mk('fld', t, sn, fn)
                ty = st[1][i]
            elif isinstance(ty, tuple) and ty[0] == 'struct':
                i = ix.a[0]
                t = mk('fld', t, '?', 'f%d' % i)
                ty = ty[1][i]
            elif isinstance(ty, tuple) and ty[0] == 'arr':
                ty = ty[2]
                if not (ix.k == 'c' and ix.a[0] == 0 and False):
                    t = mkidx(t, ix)
            else:
                t = mkidx(t, ix)
        return t

    def ssa(self, name):
        m = self.memo
        if name in m:
            return m[name]
        ins = self.f.defs.get(name)
        if ins is None:
            return UNDEF
        op = ins.op
        if op == 'phi':
            vals = None
            self.ex.uid += 1
            u = self.ex.uid
            t = mk('phi', u)
            m[name] = t
            self.ex.g.phi[u] = {'inc': None, 'ins': ins, 'fn': self.f,
                                'kind': None, 'inst': self}
            self.pending.append((u, ins))
            return t
        t = self._ev(ins)
        m[name] = t
        return t

    def _ev(self, ins):
        op = ins.op
        if op == 'alloca':
            if ins.a:
                return mk('alloca', self.uid, ins.res, self.val(ins.a[0]))
            return mk('alloca', self.uid, ins.res)
        if op == 'load':
            a = self.val(ins.a[0])
            vl = self.ex.vload
            if vl is not None and (vl(a, ins) if getattr(vl, 'typed', False)
                                   else vl(a)):
                return mk('vld', a, self.uid, ins.res)
            return mk('ld', a)
        if op == 'getelementptr':
            return self.gep(ins.ty, self.val(ins.a[0]),
                            [self.val(x) for x in ins.a[1:]])
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr',
                  'fpext', 'addrspacecast', 'freeze'):
            return self.val(ins.a[0])
        if op in ('fptrunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
            v = self.val(ins.a[0])
            if op in ('sitofp', 'uitofp') and v.k == 'c':
                return mk('fc', float(v.a[0]))
            return mk('cast', op, v)
        if op in ('icmp', 'fcmp'):
            a, b = self.val(ins.a[0]), self.val(ins.a[1])
            return mkcmp(ins.x, a, b)
        if op == 'select':
            return mk('sel', *[self.val(x) for x in ins.a])
        if op == 'fneg':
            v = self.val(ins.a[0])
            if v.k == 'fc':
                return mk('fc', -v.a[0])
            return mk('op', 'fneg', v)
        if op in ('call', 'invoke'):
            # not yet expanded (use before expansion in block order)
            return mk('callref', self.uid, ins.res)
        if op == 'extractvalue':
            return mk('op', 'extract%d' % ins.x, self.val(ins.a[0]))
        from ir import BINOPS
        if op in BINOPS:
            a, b = self.val(ins.a[0]), self.val(ins.a[1])
            if op == 'xor' and b.k == 'c' and b.a[0] == 1 and ins.ty == 'i1':
                return mknot(a)
            return mkop(op, a, b)
        return UNDEF

    def finish_phis(self):
        i = 0
        while i < len(self.pending):
            u, ins = self.pending[i]
            i += 1
            inc = []
            for v, bn in ins.x:
                if bn in self.f.bb and self.f.bb[bn] in self.f.blocks:
                    inc.append((self.val(v), bn))
            self.ex.g.phi[u]['inc'] = inc
            classify_phi(self.ex.g, u)


def mkidx(base, i):
    if base.k == 'idx' and i.k == 'c' and i.a[0] == 0:
        return base
    return mk('idx', base, i)


def mknot(a):
    if a.k == 'cmp':
        inv = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt',
               'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
               'ugt': 'ule', 'ule': 'ugt'}
        if a.a[0] in inv:
            return mk('cmp', inv[a.a[0]], a.a[1], a.a[2])
    if a.k == 'not':
        return a.a[0]
    return mk('not', a)


def mkcmp(p, a, b):
    # boolean re-tests introduced by zext/icmp ne 0
    if b.k == 'c' and b.a[0] == 0 and p in ('ne', 'eq') and \
            a.k in ('cmp', 'not'):
        return a if p == 'ne' else mknot(a)
    if (a.k in ('c', 'fc', 'null') and b.k not in ('c', 'fc', 'null')) or \
            (p in ('eq', 'ne', 'oeq', 'une') and a.n > b.n and
             b.k not in ('c', 'fc', 'null')):
        if p in SWAP:
            a, b, p = b, a, SWAP[p]
    if a.k == 'c' and b.k == 'c':
        x, y = a.a[0], b.a[0]
        r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y,
             'sgt': x > y, 'sge': x >= y}.get(p)
        if r is not None:
            return C(1 if r else 0)
    return mk('cmp', p, a, b)


def classify_phi(g, u):
    """iter (linked list), ind (counted loop), other"""
    info = g.phi[u]
    me = mk('phi', u)
    outs, backs = [], []
    for t, bn in info['inc']:
        if contains(t, me) and t is not me:
            backs.append(t)
        elif t is not me:
            outs.append(t)
    info['kind'] = 'merge'
    if len(set(outs)) == 1 and backs:
        kinds = set()
        for b in backs:
            if b.k in ('ld', 'vld') and b.a[0].k == 'fld' and \
                    b.a[0].a[0] is me:
                kinds.add(('iter', b.a[0].a[1], b.a[0].a[2]))
            elif b.k == 'op' and b.a[0] == 'add' and me in b.a[1:] and \
                    any(x.k == 'c' for x in b.a[1:]):
                st = [x for x in b.a[1:] if x.k == 'c'][0].a[0]
                kinds.add(('ind', st))
            else:
                kinds.add(('other', b))
        if len(kinds) == 1:
            k = next(iter(kinds))
            info['kind'] = k[0]
            info['init'] = outs[0]
            info['step'] = k[1:]
    return info


_cm = {}


def contains(t, x):
    if t is x:
        return True
    key = (t, x)
    r = _cm.get(key)
    if r is None:
        r = any(contains(c, x) for c in t.a if isinstance(c, T))
        _cm[key] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for c in t.a:
        if isinstance(c, T):
            subterms(c, seen)
    return seen


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not any(isinstance(c, T) for c in t.a):
        memo[t] = t
        return t
    na = tuple(subst(c, m, memo) if isinstance(c, T) else c for c in t.a)
    r = t if na == t.a else rebuild(t.k, na)
    memo[t] = r
    return r


def rebuild(k, a):
    if k == 'op' and len(a) == 3:
        return mkop(*a)
    if k == 'cmp':
        return mkcmp(*a)
    if k == 'idx':
        return mkidx(*a)
    return mk(k, *a)


def poly(t):
    """integer polynomial normal form: frozenset of (monomial, coeff)"""
    d = _poly(t)
    return frozenset((k, v) for k, v in d.items() if v)


def _poly(t):
    if t.k == 'c':
        return {(): t.a[0]}
    if t.k == 'op' and t.a[0] in ('add', 'sub', 'mul', 'shl'):
        x = _poly(t.a[1])
        if t.a[0] == 'shl':
            if t.a[2].k == 'c':
                m = 1 << t.a[2].a[0]
                return {k: v * m for k, v in x.items()}
            return {(t,): 1}
        y = _poly(t.a[2])
        r = {}
        if t.a[0] == 'mul':
            for k1, v1 in x.items():
                for k2, v2 in y.items():
                    k = tuple(sorted(k1 + k2, key=lambda q: q.n))
                    r[k] = r.get(k, 0) + v1 * v2
            return r
        r = dict(x)
        s = 1 if t.a[0] == 'add' else -1
        for k, v in y.items():
            r[k] = r.get(k, 0) + s * v
        return r
    return {(t,): 1}


def root_of(t):
    while t.k in ('fld', 'idx', 'ld', 'cast'):
        t = t.a[0] if t.k != 'cast' else t.a[1]
    return t


# ------------------------------------------------------------ graph helpers

def forward(g, init, transfer, join, edge=None):
    """generic forward dataflow; state None = unreachable"""
    st = {n: None for n in g.nodes}
    st[g.entry] = init
    from collections import deque
    order = {n: i for i, n in enumerate(rpo(g))}
    import heapq
    wl = [(order[g.entry], g.entry.id, g.entry)]
    inq = {g.entry}
    it = 0
    while wl:
        _, _, n = heapq.heappop(wl)
        inq.discard(n)
        it += 1
        if it > 60 * len(g.nodes) + 10000:
            raise AnalysisError("dataflow did not converge")
        out = transfer(n, st[n])
        if out is None:
            continue
        for s, c in n.succ:
            o = edge(n, s, c, out) if edge else out
            if o is None:
                continue
            new = o if st[s] is None else join(st[s], o)
            if new != st[s]:
                st[s] = new
                if s not in inq:
                    inq.add(s)
                    heapq.heappush(wl, (order[s], s.id, s))
    return st


def rpo(g):
    seen = set()
    out = []
    st = [(g.entry, iter(g.entry.succ))]
    seen.add(g.entry)
    while st:
        n, it = st[-1]
        for s, _ in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succ)))
                break
        else:
            out.append(n)
            st.pop()
    out.reverse()
    return out


def reach_fwd(starts, stop=lambda n: False):
    seen = set()
    st = list(starts)
    while st:
        n = st.pop()
        if n in seen or stop(n):
            continue
        seen.add(n)
        for s, _ in n.succ:
            st.append(s)
    return seen


def reach_bwd(starts, stop=lambda n: False):
    seen = set()
    st = list(starts)
    while st:
        n = st.pop()
        if n in seen or stop(n):
            continue
        seen.add(n)
        for s, _ in n.pred:
            st.append(s)
    return seen
