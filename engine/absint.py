"""Conditional constant propagation over an expanded graph.

Live(g, hook) computes which nodes and edges are reachable when `hook` supplies
values for some terms (arguments, members, results of string comparisons).
Branch conditions that become constant prune edges; phi values are joined over
live edges only.
"""
from terms import *

UNK = None


class Sym:
    """a value that is known only up to identity (never equal to a literal)"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<%s>' % self.n


def block_of(n):
    """(function, block name, stack) of the block a node's out-edges leave"""
    if n.kind == 'fexit':
        if not n.stack:
            return None
        ins = n.stack[-1][1]
        return (ins.bb.fn.name if hasattr(ins.bb, 'fn') else None,
                ins.bb.name, n.stack[:-1])
    if n.kind == 'bb':
        return (n.a[0], n.a[1], n.stack)
    if n.ins is not None:
        return (n.fn.name, n.ins.bb.name, n.stack)
    return None


class Live:
    def __init__(self, g, hook=None, facts=None, strings=True):
        self.g = g
        self.hook = hook
        self.facts = facts or {}
        self.nodes = set()
        self.edges = set()
        self.inedges = set()     # ((fn, bb, stack), pred block name)
        self.retlive = set()
        self.memo = {}
        self._run()

    # -- evaluation of terms to python values
    def ev(self, t, depth=0):
        if not isinstance(t, T):
            return UNK
        if t in self.memo:
            return self.memo[t]
        if depth > 60:
            return UNK
        self.memo[t] = UNK           # cut cycles
        r = self._ev(t, depth + 1)
        self.memo[t] = r
        return r

    def _ev(self, t, d):
        if t in self.facts:
            return self.facts[t]
        if self.hook:
            r = self.hook(self, t)
            if r is not UNK:
                return r
        k, a = t.k, t.a
        if k == 'c' or k == 'fc':
            return a[0]
        if k == 'str':
            return a[0].split('\0')[0]
        if k == 'null':
            return 0
        if k == 'fn':
            return '&' + a[0]
        if k == 'cast':
            v = self.ev(a[1], d)
            if isinstance(v, (int, float)):
                return int(v) if a[0].startswith('fpto') else float(v)
            return v
        if k == 'not':
            v = self.ev(a[0], d)
            return UNK if not isinstance(v, (int, float)) else int(not v)
        if k == 'cmp':
            return self.cmp(a[0], self.ev(a[1], d), self.ev(a[2], d))
        if k == 'in':
            v = self.ev(a[0], d)
            if isinstance(v, (int, float)):
                return int(v in a[1])
            return UNK
        if k == 'sel':
            c = self.ev(a[0], d)
            if isinstance(c, (int, float)):
                return self.ev(a[1] if c else a[2], d)
            x, y = self.ev(a[1], d), self.ev(a[2], d)
            return x if x is not UNK and x == y else UNK
        if k == 'op' and len(a) == 3:
            x, y = self.ev(a[1], d), self.ev(a[2], d)
            if a[0] == 'and' and (x == 0 or y == 0) and \
                    not (isinstance(x, str) or isinstance(y, str)):
                return 0
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                try:
                    return {
                        'add': lambda: x + y, 'sub': lambda: x - y,
                        'mul': lambda: x * y, 'and': lambda: x & y,
                        'or': lambda: x | y, 'xor': lambda: x ^ y,
                        'shl': lambda: x << y, 'lshr': lambda: x >> y,
                        'ashr': lambda: x >> y,
                        'sdiv': lambda: int(x / y), 'fadd': lambda: x + y,
                        'srem': lambda: x - int(x / y) * y,
                        'fsub': lambda: x - y, 'fmul': lambda: x * y,
                        'fdiv': lambda: x / y}[a[0]]()
                except (KeyError, ZeroDivisionError, TypeError):
                    return UNK
            return UNK
        if k == 'call' and a[1] in ('strncmp', 'strcmp'):
            x, y = self.ev(a[2], d), self.ev(a[3], d)
            if isinstance(x, Sym) and isinstance(y, str) or \
                    isinstance(y, Sym) and isinstance(x, str):
                return 1
            if isinstance(x, str) and isinstance(y, str):
                if a[1] == 'strncmp':
                    n = self.ev(a[4], d)
                    if not isinstance(n, int):
                        return UNK
                    x, y = x[:n], y[:n]
                return (x > y) - (x < y)
            return UNK
        if k == 'call' and a[1] in ('strlen', 'strnlen'):
            x = self.ev(a[2], d)
            return len(x) if isinstance(x, str) else UNK
        if k == 'ld':
            return self.table(a[0], d)
        if k == 'phi':
            info = self.g.phi.get(a[0])
            if not info or not info.get('inc'):
                return UNK
            vals = self.phivals(t)
            res = set()
            for v in vals:
                if v is t:
                    continue
                x = self.ev(v, d)
                if x is UNK:
                    return UNK
                res.add(x)
            return next(iter(res)) if len(res) == 1 else UNK
        return UNK

    def table(self, t, d):
        """value of a load from a constant table, or UNK"""
        prog = getattr(self.g, 'prog', None)
        path = []
        while t.k in ('idx', 'fld', 'cast'):
            if t.k == 'idx':
                i = self.ev(t.a[1], d)
                if not isinstance(i, int):
                    return UNK
                path.append(i)
            elif t.k == 'fld':
                f = t.a[2]
                names = prog.fieldnames.get(t.a[1]) if prog else None
                if names and f in names:
                    path.append(list(names).index(f))
                elif f[:1] == 'f' and f[1:].isdigit():
                    path.append(int(f[1:]))
                else:
                    return UNK
            t = t.a[1] if t.k == 'cast' else t.a[0]
        if t.k != 'g' or prog is None:
            return UNK
        gl = prog.globals.get(t.a[0])
        if not gl or not gl['const'] or not gl['init']:
            return UNK
        v = gl['init']
        for i in reversed(path):
            if v[0] != 'agg' or not 0 <= i < len(v[1]):
                return UNK
            v = v[1][i]
        if v[0] in ('c', 'fc'):
            return v[1]
        if v[0] == 'null':
            return 0
        if v[0] == 'g':
            s = prog.cstr(v[1])
            return s if isinstance(s, str) else UNK
        return UNK

    def phivals(self, t):
        """incoming terms of a phi over live edges"""
        info = self.g.phi[t.a[0]]
        if info['kind'] == 'ret' or info.get('ins') is None:
            return [v for v, n in info['inc'] if n in self.nodes]
        ins = info['ins']
        key = (info['fn'].name, ins.bb.name, info['inst'].stack)
        return [v for v, bn in info['inc'] if (key, bn) in self.inedges]

    @staticmethod
    def cmp(p, x, y):
        if x is UNK or y is UNK:
            return UNK
        if isinstance(x, Sym) or isinstance(y, Sym):
            if p in ('eq', 'ne') and (x == 0 or y == 0 or x is y):
                return int((x is y) == (p == 'eq'))
            return UNK
        if isinstance(x, str) != isinstance(y, str):
            # string address against null
            if p in ('eq', 'ne') and (x == 0 or y == 0):
                return int(p == 'ne')
            return UNK
        f = {'eq': lambda: x == y, 'ne': lambda: x != y,
             'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'ult': lambda: x < y, 'ule': lambda: x <= y,
             'ugt': lambda: x > y, 'uge': lambda: x >= y,
             'oeq': lambda: x == y, 'une': lambda: x != y,
             'olt': lambda: x < y, 'ole': lambda: x <= y,
             'ogt': lambda: x > y, 'oge': lambda: x >= y,
             'one': lambda: x != y, 'ueq': lambda: x == y}.get(p)
        return UNK if f is None else int(f())

    def _run(self):
        g = self.g
        self.nodes = {g.entry}
        changed = True
        while changed:
            changed = False
            self.memo = {}
            st = [n for n in g.nodes if n in self.nodes]
            while st:
                n = st.pop()
                for i, (s, cd) in enumerate(n.succ):
                    if (n, i) in self.edges:
                        continue
                    if cd is not None:
                        v = self.ev(cd[0])
                        if isinstance(v, (int, float)) and \
                                bool(v) != bool(cd[1]):
                            continue
                    self.edges.add((n, i))
                    changed = True
                    if s.kind == 'bb':
                        b = block_of(n)
                        if b is not None:
                            self.inedges.add(((s.a[0], s.a[1], s.stack),
                                              b[1]))
                    if s not in self.nodes:
                        self.nodes.add(s)
                        st.append(s)

    @property
    def returns(self):
        return self.g.exit is not None and self.g.exit in self.nodes

    def ret(self):
        """set of possible return values (python values or None = unknown)"""
        r = self.g.ret
        if r is None:
            return set()
        out = set()
        for t in self.leaves(r):
            out.add(self.ev(t))
        return out

    def leaves(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return set()
        seen.add(t)
        if t.k == 'phi' and t.a[0] in self.g.phi and \
                self.g.phi[t.a[0]].get('inc'):
            o = set()
            for v in self.phivals(t):
                o |= self.leaves(v, seen)
            return o
        if t.k == 'sel':
            c = self.ev(t.a[0])
            if isinstance(c, (int, float)):
                return self.leaves(t.a[1] if c else t.a[2], seen)
            return self.leaves(t.a[1], seen) | self.leaves(t.a[2], seen)
        return {t}
