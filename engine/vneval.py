"""Random interpretations of value graphs (after Gulwani and Necula).

Two summaries that are not the same graph may still be the same function: the
normal form is not complete.  A difference is reported only when some
interpretation of the input symbols (members, arguments, draws, results of
opaque calls) gives the two graphs different outputs.  Interpretations assign
small exact rationals to the symbols; the program itself is never run."""
import hashlib, itertools, math, re, struct
from fractions import Fraction as Q
import vn
from vn import L, D, ONE, ZERO, NULLV
from summary import lst, SIZE

F = Q


SKIPS = {}
TRACE = None


COUNT = re.compile(r'^(n|t|k|len|klen|n_\w+|max_\w+|\w+_dim|\w*size|num|pad|'
                   r'stride|width|height|channels|out_[whc]|M|N|K|ld[abc]|'
                   r'LD[ABC]|INC[XY])$')


class Skip(Exception):
    def __init__(self, *a):
        SKIPS[a] = SKIPS.get(a, 0) + 1
    """the interpretation is outside the domain (division by zero, ...)"""


UNIT = [F(1, 4), F(1, 2), F(1, 8), F(3, 4)]
POS = [F(1, 4), F(1, 2), F(1), F(2), F(3, 2)]
DIM = [1, 2, 3, 2, 4]
HINT = {
    ('Cl', 'fit'): POS, ('Cl', 'num'): [1, 2, 3, 1], ('Cl', 'exp'): [0, 1, 2, 3, 5, 9],
    ('Cl', 'err'): [F(0), F(1, 4), F(1, 2), F(1), F(2), F(10 ** 6)],
    ('Cl', 'size'): [F(1), F(2), F(7, 2)], ('Cl', 'time'): [0, 1, 2, 5],
    ('Cl', 'age'): [0, 1, 2, 5], ('Cl', 'mtotal'): [0, 1, 2, 4],
    ('Set', 'size'): [0, 1, 2, 3, 2], ('XCSF', 'time'): [0, 1, 3, 5, 8],
    ('XCSF', 'n_actions'): DIM, ('XCSF', 'x_dim'): DIM, ('XCSF', 'y_dim'): DIM,
    ('XCSF', 'THETA_DEL'): [0, 1, 2, 5], ('XCSF', 'THETA_SUB'): [0, 1, 2, 5],
    ('XCSF', 'POP_SIZE'): [1, 2, 5], ('ArgsEA', 'lambda'): [1, 2, 3],
    ('ArgsEA', 'theta'): [F(0), F(1, 2), F(1), F(2)],
    ('Layer', 'options'): list(range(64)),
    ('Layer', 'stride'): [1, 2, 1, 3], ('Layer', 'size'): [1, 2, 2, 3],
    ('Layer', 'width'): [1, 2, 3, 4], ('Layer', 'height'): [1, 2, 3],
    ('Layer', 'channels'): [1, 2], ('Layer', 'pad'): [0, 1],
    ('XCSF', 'GAMMA'): UNIT, ('XCSF', 'TELETRANSPORTATION'): [1, 2, 5],
}
FLOATS = ['ALPHA', 'BETA', 'DELTA', 'EPS_0', 'NU', 'INIT_ERROR',
          'INIT_FITNESS', 'P_EXPLORE', 'HUBER_DELTA', 'E0']
for f in FLOATS:
    HINT['XCSF', f] = POS
HINT['XCSF', 'E0'] = POS + [F(1, 10 ** 6)]
HINT['XCSF', 'NU'] = POS + [F(2), F(5)]
INTS = [[0, 1, 2, 3], [1, 2], [0, 1, 1, 2, 5]]
REALS = [[F(0), F(1, 2), F(1)], [F(-1), F(0), F(1), F(2)],
         [F(-5, 2), F(-1), F(1, 4), F(3, 4), F(5, 2), F(0)],
         [F(k, 7) for k in range(-20, 21)]]
PNULL = ('NULL',)
# the ends of a list of layers
ENDS = {(('Net', 'tail'), ('Llist', 'next')),
        (('Net', 'head'), ('Llist', 'prev'))}


# ------------------------------------------------- members that go together
def _l(I, o, f):
    return I.init(('fld', o, 'Layer', f), 'int')


def _one(I, o):
    return 1


def _alias(f):
    return lambda I, o: _l(I, o, f)


def _prod(*fs):
    def g(I, o):
        n = 1
        for f in fs:
            n *= _l(I, o, f)
        return n
    return g


def _child(I, o):
    """(parent, member) of a sub-layer"""
    if o[0] == 'p' and o[1][0] == 'fld' and o[1][2] == 'Layer':
        return o[1][1], o[1][3]
    return None, None


def _kid(f):
    def g(I, o):
        p, m = _child(I, o)
        if p is None:
            return None
        if f == 'n_inputs' and (m == 'input_layer' or m[0] == 'u'):
            return _l(I, p, 'n_inputs')
        return _l(I, p, 'n_outputs')
    return g


def _kidw(I, o):
    if _child(I, o)[0] is not None:
        return _l(I, o, 'n_inputs') * _l(I, o, 'n_outputs')


def _pool(dim, twice):
    def g(I, o):
        s = _l(I, o, 'stride')
        if s < 1:
            raise Skip(32)
        return max(1, (_l(I, o, dim) + twice * _l(I, o, 'pad') -
                       _l(I, o, 'size')) // s + 1)
    return g


def _up(dim):
    return lambda I, o: _l(I, o, dim) * _l(I, o, 'stride')


_FLAT = {'out_w': _alias('n_outputs'), 'out_h': _one, 'out_c': _one}
_IMG = {'n_outputs': _prod('out_h', 'out_w', 'out_c'),
        'n_inputs': _prod('height', 'width', 'channels')}
_NEST = dict(_FLAT, n_inputs=_kid('n_inputs'), n_outputs=_kid('n_outputs'),
             n_weights=_kidw,
             n_biases=lambda I, o: _l(I, o, 'n_outputs')
             if _child(I, o)[0] is not None else None)
TOGETHER = {
    'connected': dict(_FLAT, n_weights=_prod('n_inputs', 'n_outputs'),
                      n_biases=_alias('n_outputs')),
    'convolutional': dict(_IMG, n_biases=_alias('n_filters'),
                          out_c=_alias('n_filters'),
                          n_weights=_prod('channels', 'n_filters', 'size',
                                          'size'),
                          out_w=_pool('width', 2), out_h=_pool('height', 2)),
    'recurrent': _NEST, 'lstm': _NEST,
    'avgpool': dict(_IMG, out_w=_one, out_h=_one, out_c=_alias('channels')),
    'maxpool': dict(_IMG, out_c=_alias('channels'), out_w=_pool('width', 1),
                    out_h=_pool('height', 1)),
    'upsample': dict(_IMG, out_c=_alias('channels'), out_w=_up('width'),
                     out_h=_up('height')),
    'dropout': {'n_outputs': _alias('n_inputs')},
    'noise': {'n_outputs': _alias('n_inputs')},
    'softmax': dict(_FLAT, n_outputs=_alias('n_inputs')),
}
_OUT = {('PredRLS', 'n_weights'), ('PredNLMS', 'n_weights')}


def together(fname):
    m = re.match(r'(?:ref_)?neural_layer_([a-z]+)_', fname or '')
    return {('Layer', k): f for k, f in
            TOGETHER.get(m.group(1) if m else '', {}).items()}


class Interp:
    def __init__(self, seed, prog, hints=None, consts=()):
        self.seed = seed
        self.consts = consts
        self.inexact = False
        self.perm = {}
        self.prog = prog
        self.argelem = {}
        self.argname = []
        self.tied = {}
        self.both = 0
        self.hints = dict(HINT)
        self.hints.update(hints or {})
        self.memo = {}
        self.idents = {}
        self.steps = 0

    def h(self, key):
        return int.from_bytes(hashlib.blake2b(
            repr((self.seed, key)).encode(), digest_size=8).digest(), 'big')

    def pick(self, key, dom):
        return dom[self.h(key) % len(dom)]

    # ------------------------------------------------------ initial memory
    def init(self, A, ty):
        """initial content of an address"""
        f = A[2:4] if A[0] == 'fld' else None
        if f in (('Clist', 'next'), ('Llist', 'next'), ('Llist', 'prev')):
            link = '%s.%s' % f
            if A[1][0] == 'nth' and A[1][2] == link:
                return self.nth(A[1][1], link, A[1][3] + 1)
            if f[0] == 'Llist' and A[1][0] != 'nth':
                return self.nth(A[1], link, 1)
        if f == ('rng', 'count'):
            return 0
        if f == ('Set', 'list'):
            return self.nth(('L', A), 'Clist.next', 0)
        if f == ('Set', 'num'):
            n = self.init(('fld', A[1], 'Set', 'size'), 'int')
            t = 0
            for i in range(n):
                p = self.nth(('L', ('fld', A[1], 'Set', 'list')),
                             'Clist.next', i)
                c = self.init(('fld', p, 'Clist', 'cl'), 'ptr')
                t += self.init(('fld', c, 'Cl', 'num'), 'int')
            return t
        if f == ('XCSF', 'pa_size'):
            return self.init(('fld', A[1], 'XCSF', 'n_actions'), 'int') * \
                self.init(('fld', A[1], 'XCSF', 'y_dim'), 'int')
        if ty == 'ptr':
            b = A[1] if A[0] == 'fld' else None
            if isinstance(b, tuple) and b[0] == 'p' and b[1][0] == 'fld' and \
                    (b[1][2:4], A[2:4]) in ENDS:
                return PNULL
            return ('p', A)
        if f in self.tied:
            v = self.tied[f](self, A[1])
            if v is not None:
                return v
        if f in _OUT:
            return self.init(('fld', A[1], f[0], 'n'), 'int') * \
                self.init(('fld', ('arg', 0), 'XCSF', 'y_dim'), 'int')
        if f in (('Input', 'x_dim'), ('Input', 'y_dim')):
            return self.init(('fld', ('arg', 0), 'XCSF', f[1]), 'int')
        if f == ('CondTernary', 'length'):
            a = ('fld', ('arg', 0), 'XCSF', 'cond')
            return self.init(('fld', ('p', a), 'ArgsCond', 'bits'), 'int') * \
                self.init(('fld', ('arg', 0), 'XCSF', 'x_dim'), 'int')
        v = self.scalar(('ld', A), ty, self.hint(A))
        if ty == 'int' and v < 0 and f is not None and COUNT.match(f[1]):
            v = -v              # numbers of things
        return v

    def hint(self, A):
        if A[0] == 'fld':
            return self.hints.get(A[2:4])
        if A[0] == 'idx':
            b = A[1]
            if b[0] == 'p':
                b = b[1]
            if b[0] == 'fld':
                return self.hints.get(b[2:4] + ('[]',))
            return self.hints.get(b)
        return None

    def scalar(self, key, ty, dom=None):
        if ty == 'bool':
            return self.h(key) & 1
        if ty == 'char' and dom is None:
            return self.pick(key, [F(35), F(48), F(49)])
        if dom is None:
            g = INTS if ty == 'int' else REALS
            dom = g[self.seed % len(g)]
            if self.consts and self.seed % 7 == 6 and ty != 'int':
                c = self.pick(('const', key), self.consts)
                dom = [c, c + 1, c - 1, c * 2, c / 2, -c, F(0), F(1)]
            elif self.consts and self.seed % 7 == 5 and ty == 'int':
                c = self.pick(('const', key), self.consts)
                dom = [math.floor(c), math.ceil(c), math.floor(c),
                       math.ceil(c), 0, 1, 2] if abs(c) < 100 else dom
        return self.pick(key, dom)

    def len(self, h):
        if h == PNULL:
            return 0
        if h[0] == 'L':
            return self.init(('fld', h[1][1], 'Set', 'size'), 'int')
        return 1 + self.h(('len', h)) % 3

    def nth(self, h, f, i):
        if i < 0:
            raise Skip(1)
        if i >= self.len(h):
            return PNULL
        if i == 0 and h[0] != 'L':
            return h
        return ('nth', h, f, i)

    def newptr(self, key, A):
        """pointer stored at A by some call"""
        if A[0] == 'fld' and A[2:4] == ('Set', 'list') and \
                self.h(('null', key)) % 3 == 0:
            return PNULL
        return ('p', key)

    # ---------------------------------------------------------- evaluation
    def val(self, v, env=None):
        env = env or {}
        while isinstance(v, D):
            try:
                t = self.test(v.at, env)
            except Skip as e:
                if e.args != (8,) or self.both > 3:
                    raise
                # a decision about what is not there: it must not matter
                self.both += 1
                try:
                    a, b = self.val(v.hi, env), self.val(v.lo, env)
                finally:
                    self.both -= 1
                if a != b:
                    raise
                return a
            v = v.hi if t else v.lo
        if v.k == 'num':
            q = v.a[0]
            return int(q) if q.denominator == 1 else q
        fv = free(v)
        key = (v,) + tuple((b, env.get(b)) for b in fv)
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 60000:
                raise Skip(2)
            r = self.leaf(v, env)
            if isinstance(r, Q) and r.denominator == 1:
                r = int(r)
            if isinstance(r, Q) and r.denominator.bit_length() > 6000:
                raise Skip(3)
            self.memo[key] = r
        return r

    def test(self, at, env):
        if at.k == 'gt':
            x = self.val(at.d, env)
            if isinstance(x, tuple):
                raise Skip(4)
            return x > 0
        a, b = (self.val(x, env) for x in at.d)
        return a == b

    def num(self, v, env):
        x = self.val(v, env)
        if isinstance(x, tuple):
            raise Skip(5)
        return x

    def leaf(self, v, env):
        k = v.k
        if k == 'poly':
            t = 0
            for mon, c in v.a[0]:
                x = c
                for y, e in mon:
                    z = self.num(y, env)
                    if e < 0 and z == 0:
                        raise Skip(6)
                    if isinstance(z, int):
                        z = Q(z)
                    x = x * z ** e
                t = t + x
            if isinstance(t, Q) and t.denominator == 1:
                t = int(t)
            return t
        if k == '*':
            return self.num(v.a[0], env) * self.num(v.a[1], env)
        if k == 'inv':
            x = self.num(v.a[0], env)
            if x == 0:
                raise Skip(7)
            return 1 / Q(x)
        if k == 'fld':
            b = self.val(v.a[0], env)
            if b == PNULL or not isinstance(b, tuple):
                raise Skip(8)
            return ('fld', b) + tuple(v.a[1:])
        if k == 'idx':
            b = self.val(v.a[0], env)
            if b == PNULL or not isinstance(b, tuple):
                raise Skip(9)
            if b[0] == 'idx':
                return ('idx', b[1], b[2] + self.num(v.a[1], env))
            return ('idx', b, self.num(v.a[1], env))
        if k == 'fn':
            return self.fn(v, env)
        if k == 'sym':
            return self.sym(v, env)
        raise Skip(10)

    def sym(self, v, env):
        n = v.a[0]
        if v is NULLV:
            return PNULL
        if n == 'arg':
            if v.ty == 'ptr':
                if v.a[1] > 1 and self.h(('null', v.a[1])) % 4 == 0:
                    return PNULL
                return ('arg', v.a[1])
            x = self.scalar(('arg', v.a[1]), v.ty,
                            self.hints.get(('arg', v.a[1])))
            if v.ty == 'int' and x < 0 and v.a[1] < len(self.argname) and \
                    COUNT.match(self.argname[v.a[1]]):
                x = -x
            return x
        if n == 'ld':
            return self.init(self.val(v.a[1], env), v.ty)
        if n in ('b', 's'):
            if v not in env:
                raise Skip(11)
            return env[v]
        if n == 'nth':
            h = v.a[1]
            if h.k == 'sym' and h.a[0] == 'ld' and h.a[1].k == 'fld' and \
                    h.a[1].a[1:] == ('Set', 'list'):
                hk = ('L', self.val(h.a[1], env))
            else:
                hk = self.val(h, env)
            return self.nth(hk, v.a[2], self.num(v.a[3], env))
        if n == 'len':
            return self.len(self.val(v.a[1], env))
        if n == 'fconst':
            x = float(v.a[1])
            if x != x:
                raise Skip(12)
            return x
        if n == 'new' and v.a[1] in self.perm:
            return ('new', self.perm[v.a[1]]) + tuple(
                self.val(x, env) if isinstance(x, (L, D)) else x
                for x in v.a[2:])
        if n in ('alloca', 'new', 'str', 'fn', 'g'):
            return tuple(self.val(x, env) if isinstance(x, (L, D)) else x
                         for x in v.a)
        if n == 'ref':
            return ('ref', self.val(v.a[1], env))
        if n == 'res':
            return self.res(v, env)
        if n == 'ldx':
            A = self.val(v.a[2], env)
            key = ('ldx', self.val(v.a[1], env), A)
            if v.ty == 'ptr':
                return self.newptr(key, A)
            return self.scalar(key, v.ty, self.hint(A))
        if n == 'io':
            return self.scalar(('io',) + v.a[1:2], v.ty)
        raise Skip(13)

    def reskey(self, v, env):
        """identity of a call (not its result)"""
        while isinstance(v, D):
            v = v.hi if self.test(v.at, env) else v.lo
        if v.k == 'sym' and v.a[0] == 'res':
            key = (v,) + tuple((b, env.get(b)) for b in free(v))
            if key not in self.idents:
                self.idents[key] = ('p', self.callkey(v, env)[0])
            return self.idents[key]
        return self.val(v, env)

    def res(self, v, env):
        hk, args = self.callkey(v, env)
        name = v.a[1]
        if v.ty == 'ptr':
            return ('p', hk)
        if name == 'rand_uniform' and len(args) in (2, 3):
            a, b = args[:2]
            return a + (b - a) * self.pick(hk, [F(0), F(1, 4), F(1, 2),
                                                F(3, 4), F(1, 8)])
        if name == 'rand_uniform_int' and len(args) in (2, 3):
            a, b = args[:2]
            if not isinstance(a, int) or not isinstance(b, int) or b < a:
                raise Skip(15)
            if a == b:
                return a
            return a + self.h(hk) % (b - a)
        self.rk = hk
        return self.scalar(hk, v.ty, self.hints.get(name))

    def callkey(self, v, env):
        name, na = v.a[1], v.a[2]
        args = [self.val(x, env) for x in v.a[3:3 + na]]
        ver = []
        t = list(v.a[3 + na:])
        i = 0
        while i < len(t):
            k = t[i]
            if k == 'after':
                if self.val(t[i + 1], env):
                    ver.append((k, self.reskey(t[i + 2], env)))
                i += 3
            elif k == 'it':
                ver.append((k, self.val(t[i + 1], env)))
                i += 2
            elif k == 'with':
                try:
                    at = self.val(t[i + 1], env)
                except Skip as e:
                    if e.args != (8,):
                        raise
                    at = None       # a cell of nothing
                if at is not None:
                    ver.append((k, at, self.val(t[i + 2], env)))
                i += 3
            elif k == 'withblk':
                if self.val(t[i + 1], env):
                    ver.append((k,) + tuple(self.val(x, env)
                                            for x in t[i + 2:i + 5]))
                i += 5
            elif k in ('afterall', 'witheach'):
                g, nb = t[i + 1], t[i + 2]
                bs = [(t[i + 3 + 2 * j], t[i + 4 + 2 * j])
                      for j in range(nb)]
                i += 3 + 2 * nb
                m = 2 if k == 'afterall' else 3
                parts = t[i:i + m]
                i += m
                if self.val(g, env):
                    for e2 in self.bind(bs, env):
                        if self.val(parts[0], e2):
                            ver.append((k,) + tuple(
                                (self.reskey if k == 'afterall' else
                                 self.val)(x, e2) for x in parts[1:]))
            else:
                raise Skip(14)
        # what the callee saw, however it was written: the cells and
        # their values (the entries are latest first)
        cells, rest = {}, []
        for x in ver:
            if x[0] in ('with', 'witheach'):
                cells.setdefault(x[1], x[2])
            else:
                rest.append(x)
        ver = rest + sorted((('with', a, x) for a, x in cells.items()),
                            key=repr)
        key = ('res', name, tuple(map(canon, args)), tuple(map(canon, ver)))
        hk = ('R', name, hashlib.blake2b(repr(key).encode(),
                                         digest_size=12).hexdigest())
        if TRACE is not None:
            TRACE[hk] = key
        return hk, args

    def bind(self, bs, env):
        if not bs:
            yield env
            return
        (b, N), rest = bs[0], bs[1:]
        n = self.num(N, env)
        if n > 40:
            raise Skip(16)
        for i in range(int(n)):
            e2 = dict(env)
            e2[b] = i
            yield from self.bind(rest, e2)

    def fn(self, v, env):
        n, a = v.a[0], v.a[1:]
        if n == 'sum':
            N = self.num(a[0], env)
            if N > 60:
                raise Skip(17)
            b = vn.bound(a[1])
            t = 0
            for i in range(int(N)):
                e2 = dict(env)
                e2[b] = i
                t = t + self.num(a[2], e2)
            return t
        if n == 'fold':
            N = self.num(a[0], env)
            if N > 60:
                raise Skip(18)
            b, s = vn.bound(a[1]), vn.bself(a[1])
            x = self.val(a[2], env)
            for i in range(int(N)):
                e2 = dict(env)
                e2[b], e2[s] = i, x
                x = self.val(a[3], e2)
            return x
        if n == 'mfold':
            N = self.num(a[0], env)
            if N > 60:
                raise Skip(18)
            k = a[3]
            b = vn.bound(a[1])
            ss = [vn.bself(a[1] + j) for j in range(k)]
            x = [self.val(y, env) for y in a[4:4 + k]]
            for i in range(int(N)):
                e2 = dict(env)
                e2[b] = i
                e2.update(zip(ss, x))
                x = [self.val(y, e2) for y in a[4 + k:]]
            return x[a[2]]
        if n == 'trip':
            b = vn.bound(a[1])
            for i in range(60):
                e2 = dict(env)
                e2[b] = i
                if not self.val(a[2], e2):
                    return i
            raise Skip(19)
        if n == 'lam':
            out = []
            for e2 in self.bind([(vn.bound(a[1]), a[0])], env):
                if self.val(a[3], e2):
                    out.append(self.reskey(a[2], e2))
            return ('lam', tuple(out))
        if n == 'rd':
            return self.rd(v, env)
        if n in ('tup', 'div0'):
            raise Skip(20)
        x = [self.num(y, env) for y in a]
        try:
            if not EXACTFN(n, x):
                self.inexact = True
            return mathfn(n, x)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Skip(21)

    def rd(self, v, env):
        """element of an array after the listed writes (newest first)"""
        ty, A, es = v.a[1:]
        A = self.val(A, env)
        key = ('rdmem', es) + tuple((b, env.get(b)) for b in free(es))
        st = self.memo.get(key)
        if st is None:
            st = {}
            last = None
            for t in reversed(es.a[1:]):
                e = t.a[1:]
                if not self.val(e[1], env):
                    continue
                if e[0] == 'st':
                    st[self.val(e[2], env)] = self.val(e[3], env)
                elif e[0] == 'hv':
                    st = {}
                    last = self.reskey(e[2], env)
                elif e[0] == 'each':
                    bs = [x.a[1:] for x in e[2].a[1:]]
                    for e2 in self.bind(bs, env):
                        a = self.val(e[3], e2)
                        if e[5] is not None:
                            e2[e[5]] = self.after(st, last, a, 'real')
                        if self.val(e[6], e2):
                            st[a] = self.val(e[4], e2)
                elif e[0] == 'blk' and e[4] == 'all':
                    st['zero', self.val(e[2], env)[1]] = True
                elif e[0] == 'blk' and e[4] == 'set':
                    a = self.val(e[2], env)
                    n = self.num(e[3], env) // SIZE[ty]
                    if n > 200:
                        raise Skip(24)
                    for i in range(int(n)):
                        st['idx', a[1], a[2] + i] = 0
                else:
                    raise Skip(30)
            st = (st, last)
            self.memo[key] = st
        return self.after(st[0], st[1], A, ty)

    def after(self, st, last, A, ty):
        if A in st:
            return st[A]
        if A[0] == 'idx' and ('zero', A[1]) in st:
            return PNULL if ty == 'ptr' else 0
        if last is not None:
            k = ('ldx', last, A)
            return self.newptr(k, A) if ty == 'ptr' else \
                self.scalar(k, ty, self.hint(A))
        if root(A)[0] in ('alloca', 'new'):
            raise Skip(31)
        return self.init(A, ty)

    # ------------------------------------------------------------- outputs
    def outputs(self, S):
        """{what: value} of a summary"""
        out = {}
        alive = bool(self.val(S.st.pc))
        out['returns'] = int(alive)
        if not alive:
            return out
        if S.ret is not None:
            out['return value'] = self.val(S.ret)
        mem = {}
        hv = []

        def cur(A, ty):
            if A in mem:
                return mem[A][0]
            if root(A)[0] in ('alloca', 'new'):
                raise Skip(22)
            for E, regs, own in reversed(hv):
                if kregion(A) in regs and hit(own, A):
                    if own is not None:
                        E = next((own[1][x] for x in layers(A) if x in own[1]), E) \
                            if own[0] == 'Layer' else \
                            own[1].get(ownerkey(A, own[0]), E)
                    key = ('ldx', E, A)
                    return ('p', key) if ty == 'ptr' else \
                        self.scalar(key, ty, self.hint(A))
            return self.init(A, ty)
        for e in lst(S.st.mem):
            k = e[0]
            if k == 'bar' or not self.val(e[1]):
                continue
            if k == 'st':
                mem[self.val(e[2])] = (self.val(e[3]), e[4])
            elif k == 'each':
                _, _, bs, A, V, slf, cond = e
                for e2 in self.bind(list(bs), {}):
                    if slf is not None:
                        a = self.val(A, e2)
                        e2[slf] = cur(a, 'real')
                    if self.val(cond, e2):
                        a = self.val(A, e2)
                        x = self.val(V, e2)
                        mem[a] = (x, 'ptr' if isinstance(x, tuple) else
                                  'real')
            elif k == 'blk':
                A = self.val(e[2])
                n = self.num(e[3], {})
                ty = self.elem(A)
                if n % SIZE[ty]:
                    raise Skip(23)
                n = n // SIZE[ty]
                if n > 200 or n < 0:
                    raise Skip(24)
                if e[4] == 'copy':
                    s = self.val(e[5])
                    vs = [cur(('idx', s[1], s[2] + i), ty)
                          for i in range(int(n))]
                else:
                    vs = [0] * int(n)
                for i, x in enumerate(vs):
                    mem['idx', A[1], A[2] + i] = (x, ty)
            elif k == 'hv':
                E = self.reskey(e[2], {})
                own = self.owners(S, e[2])
                for A in list(mem):
                    if kregion(A) in e[3] and root(A)[0] != 'alloca' and \
                            hit(own, A):
                        del mem[A]
                hv.append((E, e[3], own))
        out['hv'] = hv
        evs = {}
        for e in lst(S.st.ev):
            if e[0] == 'bar' or not self.val(e[1]):
                continue
            if e[0] == 'ev':
                k = self.reskey(e[2], {})
                evs[k] = evs.get(k, 0) + 1
            else:
                for e2 in self.bind(list(e[2]), {}):
                    if self.val(e[3], e2):
                        k = self.reskey(e[4], e2)
                        evs[k] = evs.get(k, 0) + 1
        out['calls'] = evs
        # objects that nobody can see once the function has returned
        seen = set()
        new = {}
        work = [out.get('return value'), list(evs)]
        for A, (x, ty) in mem.items():
            r = root(A)
            if r[0] == 'new':
                new.setdefault(r, []).append(x)
            elif r[0] != 'alloca':
                work.append(x)
        while work:
            x = work.pop()
            if isinstance(x, tuple) and x[:1] == ('new',) and x not in seen:
                seen.add(x)
                work += new.get(x, [])
            if isinstance(x, (tuple, list)):
                work.extend(x)
        for A, (x, ty) in mem.items():
            r = root(A)
            if r[0] == 'alloca' or r[0] == 'new' and r not in seen:
                continue
            out['memory', A] = (x, ty)
        return out

    def ranks(self, S):
        """which of the allocations made each allocation site is"""
        r = {}
        n = 0
        for k in range(1, S.nalloc + 1):
            pc = S.allocs.get(k)
            if pc is None or self.val(pc):
                n += 1
                r[k] = n
            else:
                r[k] = -k
        return r

    def owners(self, S, E):
        """{classifier: call} or None when anything may have changed"""
        while isinstance(E, D):
            E = E.hi if self.test(E.at, {}) else E.lo
        if E.k == 'fn' and E.a[0] == 'lam':
            p, kind = S.owner2(E.a[3])
            if p is None:
                return None
            out = {}
            for e2 in self.bind([(vn.bound(E.a[2]), E.a[1])], {}):
                if self.val(E.a[4], e2):
                    out[self.val(p, e2)] = self.reskey(E.a[3], e2)
            return kind, out
        p, kind = S.owner2(E)
        return None if p is None else (kind, {self.val(p):
                                              self.reskey(E, {})})

    def elem(self, A):
        b = A[1]
        if b[0] == 'p':
            b = b[1]
        if b[0] == 'fld':
            t = self.prog.field_type(b[2], b[3])
            s = repr(t)
            if 'double' in s:
                return 'real'
            if 'int' in s:
                return 'int'
            if 'ool' in s:
                return 'bool'
            if 'char' in s:
                return 'char'
            return 'real'
        if b[0] == 'arg':
            return self.argelem.get(b[1], 'real')
        return 'real'


def ownerkey(A, kind='Cl'):
    S = None
    if kind == 'Set':
        while A[0] in ('fld', 'idx'):
            if A[0] == 'fld' and A[2] == 'Set':
                return A[1]
            A = A[1]
        if A[0] == 'nth' and A[1][0] == 'L':
            return A[1][1][1]
        return None
    if kind == 'Layer':
        return next(layers(A), None)
    while True:
        if A[0] == 'fld':
            S = A[2]
            A = A[1]
        elif A[0] == 'idx':
            A = A[1]
        elif A[0] == 'p':
            if A[1][0] == 'fld' and A[1][2:4] == ('Clist', 'cl'):
                return A
            A = A[1] if A[1][0] != 'ldx' else A[1][2]
        elif A[0] in ('arg', 'new', 'alloca'):
            return A if S == 'Cl' else None
        else:
            return None


def layers(A):
    """the layer an address lies in, the one that contains it, ..."""
    while True:
        if A[0] == 'fld':
            if A[2] == 'Layer':
                yield A[1]
            A = A[1]
        elif A[0] in ('idx', 'nth'):
            A = A[1]
        elif A[0] == 'p' and isinstance(A[1], tuple):
            A = A[1] if A[1][0] != 'ldx' else A[1][2]
        else:
            return


def hit(own, A):
    if own is None:
        return True
    if own[0] == 'Layer':
        q = list(layers(A))
        return not q or any(x in own[1] for x in q)
    q = ownerkey(A, own[0])
    return q is None or q in own[1]


def canon(x):
    if isinstance(x, tuple):
        return tuple(canon(y) for y in x)
    if isinstance(x, Q):
        if x.denominator == 1:
            return int(x)
        if x.denominator.bit_length() > 40:
            return '%.9g' % float(x)
        return '%d/%d' % (x.numerator, x.denominator)
    return x


def root(A):
    while A[0] in ('fld', 'idx'):
        A = A[1]
    return A


def kregion(A):
    if A[0] == 'fld':
        return A[2:4]
    if A[0] == 'idx':
        b = A[1]
        if b[0] == 'p':
            b = b[1]
            if b[0] == 'ldx':
                b = b[2]
        if b[0] == 'fld':
            return b[2:4] + ('[]',)
        if b[0] == 'arg':
            return ('param', b[1])
    return None


_free = {}


def free(v):
    r = _free.get(v)
    if r is None:
        r = _free[v] = tuple(sorted(
            (x for x in vn.refs(v) if isinstance(x, L) and x.k == 'sym' and
             x.a[0] in ('b', 's')), key=lambda x: x.fp))
    return r


def EXACTFN(n, x):
    return n in ('idiv', 'imod', 'toint', 'band', 'bor', 'bxor', 'shr',
                 'shl', 'floor', 'ceil', 'trunc', 'round', 'lround', 'rint',
                 'nearbyint', 'fmod') or \
        n == 'pow' and isinstance(x[1], int) and abs(x[1]) < 30


def mathfn(n, x):
    if n == 'pow':
        if isinstance(x[1], int) and abs(x[1]) < 30:
            return Q(x[0]) ** x[1]
        if x[0] < 0:
            raise ValueError
        if x[1] == Q(1, 2):
            p, q = Q(x[0]).numerator, Q(x[0]).denominator
            a, b = math.isqrt(p), math.isqrt(q)
            if a * a == p and b * b == q:
                return Q(a, b)
        return Q(float(x[0]) ** float(x[1]))
    if n in ('idiv', 'imod'):
        a, b = x
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if n == 'idiv' else a - q * b
    if n == 'toint':
        return math.trunc(x[0])
    if n in ('band', 'bor', 'bxor', 'shr', 'shl'):
        a, b = x
        if not isinstance(a, int) or not isinstance(b, int):
            raise ValueError
        return {'band': a & b, 'bor': a | b, 'bxor': a ^ b,
                'shr': a >> b if b >= 0 else 0,
                'shl': a << b if 0 <= b < 64 else 0}[n]
    if n == 'f32':
        return Q(struct.unpack('f', struct.pack('f', float(x[0])))[0])
    if n in ('floor', 'ceil', 'trunc'):
        return getattr(math, n)(x[0])
    if n in ('round', 'lround'):
        a = Q(x[0])
        s = -1 if a < 0 else 1
        return s * math.floor(abs(a) + Q(1, 2))
    if n in ('rint', 'nearbyint'):
        return round(Q(x[0]))
    if n == 'fmod':
        if x[1] == 0:
            raise ValueError
        a, b = Q(x[0]), Q(x[1])
        return a - b * math.trunc(a / b)
    f = getattr(math, n, None)
    if f is None:
        raise ValueError
    r = f(*[float(y) for y in x])
    if r != r or r in (math.inf, -math.inf):
        raise ValueError
    return Q(r)


def thresholds(v, out, seen, gate=False):
    """constants that values are compared with"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list, set, frozenset)):
            st.extend(x)
        elif isinstance(x, dict):
            st.extend(x)
            st.extend(x.values())
        elif id(x) in seen:
            continue
        elif isinstance(x, D):
            seen.add(id(x))
            st += [x.hi, x.lo, x.at.d]
            if x.at.k == 'gt':
                p = vn.poly(x.at.d)
                if p.get(()):
                    for m, c in p.items():
                        if len(m) == 1 and m[0][1] == 1:
                            out.add(-p[()] / c)
        elif isinstance(x, L):
            seen.add(id(x))
            st.extend(x.a)
        elif hasattr(x, '__slots__') and not isinstance(x, (Q, vn.At)):
            seen.add(id(x))
            st.extend(getattr(x, f, None) for f in x.__slots__)
    return out


def close(a, b, exact=False):
    if a == b:
        return True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if exact:
        return abs(a - b) <= max(abs(a), abs(b)) * Q(1, 10 ** 9) or \
            abs(a - b) <= Q(1, 10 ** 17)
    try:
        a, b = float(a), float(b)
    except OverflowError:
        return True
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def difference(SA, SB, prog, tries=2000, hints=None, budget=400000):
    """(number of usable interpretations, first difference or None)"""
    ok = 0
    cs, seen = set(), set()
    for S in (SA, SB):
        thresholds([S.ret, S.st.pc, lst(S.st.mem), lst(S.st.ev)], cs, seen)
    cs = sorted(cs)[:40]
    n = max(SA.nalloc, SB.nalloc)
    first = None
    for p in itertools.permutations(range(1, n + 1)) if 1 < n < 5 else [None]:
        perm = dict(enumerate(p, 1)) if p else {}
        ok, d = attempt(SA, SB, prog, tries, hints, budget, cs, perm)
        if not d and ok >= 20:
            return ok, None
        if d or first is None:
            first = first if first and first[1] else (ok, d)
    return first


def argelems(S, prog):
    d = {}
    f = prog.funcs.get(getattr(S, 'fname', None))
    for i in range(len(f.args) if f is not None else 0):
        try:
            t = repr(prog.paramtype(f, i))
        except (IndexError, KeyError, TypeError):
            continue
        d[i] = ('bool' if 'ool' in t else 'char' if 'char' in t else
                'real' if 'double' in t else 'int' if 'int' in t else 'real')
    return d


def attempt(SA, SB, prog, tries, hints, budget, cs, perm):
    ok = 0
    elems = argelems(SA, prog)
    tied = together(SA.fname)
    names = prog.funcs[SA.fname].args if SA.fname in prog.funcs else []
    for seed in range(tries):
        if budget < 0 and seed >= 240:
            break
        I = Interp(seed, prog, hints, cs)
        I.argelem = elems
        I.argname = names
        I.tied = tied
        try:
            I.perm = I.ranks(SA)
            a = I.outputs(SA)
            r = {k: perm.get(i, i) for k, i in I.ranks(SB).items()}
            if r != I.perm:
                I.perm = r
                I.memo = {}
            b = I.outputs(SB)
            I.perm = {}
            d = diff(I, a, b)
        except (Skip, RecursionError):
            continue
        finally:
            budget -= I.steps + 50
        ok += 1
        if d:
            return ok, d
    return ok, None


def diff(I, a, b):
    if a['returns'] != b['returns']:
        return "returns normally: %s / %s" % (a['returns'], b['returns'])
    if not a['returns']:
        return None
    if not close(a.get('return value', 0), b.get('return value', 0),
                 not I.inexact):
        return "return value %s / %s" % (fmt(a.get('return value', 0)),
                                         fmt(b.get('return value', 0)))
    for k in sorted((k for k in set(a) | set(b) if isinstance(k, tuple)),
                    key=lambda k: root(k[1])[0] == 'new'):
        A = k[1]
        ty = (a.get(k) or b.get(k))[1]
        x, y = ((o[k][0] if k in o else final(I, o, A, ty)) for o in (a, b))
        if not close(x, y, not I.inexact):
            return "final value of %s: %s / %s" % (fmtaddr(A), fmt(x),
                                                   fmt(y))
    if a['calls'] != b['calls']:
        for k in set(a['calls']) | set(b['calls']):
            n, m = a['calls'].get(k, 0), b['calls'].get(k, 0)
            if n != m:
                return "calls of %s (with these arguments): %d / %d" % (
                    k[1][1] if k[0] == 'p' else k[1], n, m)
    return None


def final(I, o, A, ty):
    for E, regs, own in reversed(o['hv']):
        if kregion(A) in regs and hit(own, A):
            raise Skip(25)
    if root(A)[0] == 'new':
        raise Skip(26)
    return I.init(A, ty)


def fmt(x):
    if isinstance(x, tuple):
        return fmtaddr(x)
    if isinstance(x, Q):
        return '%g' % float(x)
    return str(x)


def fmtaddr(A):
    if A[0] == 'fld':
        return '%s->%s' % (fmtaddr(A[1]), A[3])
    if A[0] == 'idx':
        return '%s[%s]' % (fmtaddr(A[1]), A[2])
    if A[0] == 'p':
        return fmtaddr(A[1])
    if A[0] == 'nth':
        return '%s{%s}' % (fmtaddr(A[1]), A[3])
    if A[0] == 'L':
        return fmtaddr(A[1])
    if A[0] == 'arg':
        return 'arg%d' % A[1]
    return '(%s)' % ' '.join(str(x) for x in A)[:60]
