"""Value numbering with gated (decision-diagram) values.

A value is a decision diagram whose tests are normalised comparisons and whose
leaves are algebraic expressions.  Expressions are interned by their image in
a large prime field under a fixed pseudo-random assignment of the atoms, so
that expressions equal as rational functions are the same object (global value
numbering over the reals).  Nothing is executed and no solver is involved."""
import hashlib
from fractions import Fraction as Q
from functools import reduce

P = (1 << 127) - 1


class Undecided(Exception):
    pass


def H(*p):
    return int.from_bytes(hashlib.blake2b(repr(p).encode(),
                                          digest_size=20).digest(),
                          'big') % P


class L:
    __slots__ = ('k', 'a', 'fp', 'int', 'ty')

    def __repr__(self):
        return show(self)


class At:
    __slots__ = ('k', 'd', 'fp')


class D:
    __slots__ = ('at', 'hi', 'lo', 'fp')

    def __repr__(self):
        return show(self)


_leaf = {}
_node = {}
_atom = {}
_memo = {}
LIMIT = [0]


def leaf(k, a, fp, isint=False, ty='real'):
    x = _leaf.get(fp)
    if x is None:
        x = L()
        x.k, x.a, x.fp, x.int, x.ty = k, a, fp, isint, ty
        _leaf[fp] = x
    return x


def num(q):
    q = Q(q)
    fp = q.numerator * pow(q.denominator, -1, P) % P
    return leaf('num', (q,), fp, q.denominator == 1, 'num')


ZERO, ONE, HALF = num(0), num(1), num(Q(1, 2))
SMALL = {}
for _i in range(-400, 401):
    SMALL[num(Q(_i, 2)).fp] = Q(_i, 2)


def sym(name, ty='real'):
    """atom; name is a tuple of strings, numbers and leaves"""
    return leaf('sym', name, H('sym', ty, tuple(
        ('#', x.fp) if isinstance(x, (L, D)) else x for x in name)),
        ty in ('int', 'bool', 'char'), ty)


NULLV = sym(('NULL',), 'ptr')


# -------------------------------------------------------- leaf arithmetic
# A sum of products is kept as {monomial: coefficient}; a monomial is a tuple
# of (atom, exponent), exponents may be negative.

_poly = {}


def poly(x):
    p = _poly.get(x.fp)
    if p is None:
        if x.k == 'num':
            p = {(): x.a[0]} if x.a[0] else {}
        elif x.k == 'poly':
            p = dict(x.a[0])
        else:
            p = {((x, 1),): Q(1)}
        _poly[x.fp] = p
    return p


def frompoly(p, fp):
    p = {m: c for m, c in p.items() if c}
    x = _leaf.get(fp)
    if x is not None:
        return x
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    isint = all(c.denominator == 1 and all(a.int and e > 0 for a, e in m)
                for m, c in p.items())
    key = tuple(sorted(p.items(), key=lambda mc: [(a.fp, e)
                                                  for a, e in mc[0]]))
    return leaf('poly', (key,), fp, isint)


def _add(a, b):
    fp = (a.fp + b.fp) % P
    x = _leaf.get(fp)
    if x is not None:
        return x
    p = dict(poly(a))
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) + c
    return frompoly(p, fp)


def monmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e),
                        key=lambda t: t[0].fp))


def _mul(a, b):
    fp = a.fp * b.fp % P
    x = _leaf.get(fp)
    if x is not None:
        return x
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 400:
        return leaf('*', (a, b), fp, a.int and b.int)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = monmul(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return frompoly(p, fp)


def _neg(a):
    return _mul(num(-1), a)


def _inv(b):
    fp = pow(b.fp, -1, P)
    x = _leaf.get(fp)
    if x is not None:
        return x
    p = poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return frompoly({tuple((a, -e) for a, e in m): 1 / c}, fp)
    return leaf('inv', (b,), fp, False)


def _div(a, b):
    if b.fp == 0:
        return fnl('div0', a)
    return _mul(a, _inv(b))


def _sub(a, b):
    return _add(a, _neg(b))


def fnl(name, *args):
    """opaque function of values"""
    fp = H('fn', name, tuple(x.fp if isinstance(x, (L, D)) else ('c', x)
                             for x in args))
    return leaf('fn', (name,) + args, fp,
                name in ('idiv', 'imod', 'toint', 'band', 'bor', 'bxor',
                         'shr'))


def _fld(b, S, f):
    return leaf('fld', (b, S, f), H('fld', b.fp, S, f), False, 'ptr')


def _idx(b, i):
    if b.k == 'idx':
        return _idx(b.a[0], _add(b.a[1], i))
    return leaf('idx', (b, i), H('idx', b.fp, i.fp), False, 'ptr')


# ------------------------------------------------------------- diagrams

def atom(k, d):
    fp = H('at', k, d.fp if isinstance(d, L) else tuple(x.fp for x in d))
    t = _atom.get(fp)
    if t is None:
        t = At()
        t.k, t.d, t.fp = k, d, fp
        _atom[fp] = t
    return t


def mkD(at, hi, lo):
    if hi is lo:
        return hi
    key = (at.fp, hi.fp, lo.fp)
    x = _node.get(key)
    if x is None:
        x = D()
        x.at, x.hi, x.lo = at, hi, lo
        x.fp = H('D', key)
        _node[key] = x
        LIMIT[0] += 1
        if LIMIT[0] > 400000:
            raise Undecided("diagram too large")
    return x


def top(*vs):
    t = None
    for v in vs:
        if isinstance(v, D) and (t is None or v.at.fp < t.fp):
            t = v.at
    return t


def cof(v, at, pol):
    if isinstance(v, D) and v.at is at:
        return v.hi if pol else v.lo
    return v


def apply(name, f, *vs):
    if all(isinstance(v, L) for v in vs):
        return f(*vs)
    key = (name,) + tuple(v.fp for v in vs)
    r = _memo.get(key)
    if r is None:
        t = top(*vs)
        h = apply(name, f, *[cof(v, t, 1) for v in vs])
        l = apply(name, f, *[cof(v, t, 0) for v in vs])
        # f may introduce tests of its own: recombine in order
        r = ite(mkD(t, ONE, ZERO), h, l)
        _memo[key] = r
    return r


def ite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    if a is ONE and b is ZERO:
        return c
    key = ('ite', c.fp, a.fp, b.fp)
    r = _memo.get(key)
    if r is None:
        if isinstance(c, L):
            raise Undecided("condition is not a test: %r" % c)
        t = top(c, a, b)
        r = mkD(t, ite(cof(c, t, 1), cof(a, t, 1), cof(b, t, 1)),
                ite(cof(c, t, 0), cof(a, t, 0), cof(b, t, 0)))
        _memo[key] = r
    return r


def AND(a, b):
    return ite(a, b, ZERO)


def OR(a, b):
    return ite(a, ONE, b)


def NOT(a):
    return ite(a, ZERO, ONE)


def implied(d, ctx):
    for e, t in ctx:
        c = SMALL.get((d.fp - e.fp) % P)
        if c is not None:
            if t and c >= 0:
                return True
            if not t and c <= 0:
                return False
        c = SMALL.get((d.fp + e.fp) % P)
        if c is not None:
            if t and c <= 0:
                return False
            if not t and c > 0:
                return True
    return None


def simp(v, ctx=()):
    """drop tests decided by the tests above them"""
    if isinstance(v, L):
        return v
    key = ('simp', v.fp, tuple((e.fp, t) for e, t in ctx))
    r = _memo.get(key)
    if r is None:
        if v.at.k == 'gt':
            t = implied(v.at.d, ctx)
            if t is not None:
                r = simp(v.hi if t else v.lo, ctx)
            else:
                h = simp(v.hi, ctx + ((v.at.d, True),))
                l = simp(v.lo, ctx + ((v.at.d, False),))
                # the test is redundant when one side covers the other
                r = mkD(v.at, h, l)
        else:
            r = mkD(v.at, simp(v.hi, ctx), simp(v.lo, ctx))
        _memo[key] = r
    return r


def restrict(f, c):
    """f simplified where the condition c is known to hold"""
    if c is ONE or c is ZERO or isinstance(f, L):
        return f
    if f is c:
        return ONE
    key = ('restrict', f.fp, c.fp)
    r = _memo.get(key)
    if r is None:
        t = top(f, c)
        c1, c0 = cof(c, t, 1), cof(c, t, 0)
        if not (isinstance(f, D) and f.at is t):
            r = restrict(f, OR(c1, c0))
        elif c1 is ZERO:
            r = restrict(f.lo, c0)
        elif c0 is ZERO:
            r = restrict(f.hi, c1)
        else:
            r = mkD(t, restrict(f.hi, c1), restrict(f.lo, c0))
        _memo[key] = r
    return r


def unary(c):
    """the tests a condition implies outright, as a simp context"""
    out = []
    while isinstance(c, D):
        if c.lo is ZERO:
            if c.at.k == 'gt':
                out.append((c.at.d, True))
            c = c.hi
        elif c.hi is ZERO:
            if c.at.k == 'gt':
                out.append((c.at.d, False))
            c = c.lo
        else:
            break
    return tuple(out)


def under(f, c):
    return simp(restrict(simp(f, unary(c)), c))


def leaves(v, out=None):
    out = set() if out is None else out
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, D):
            st += [x.hi, x.lo]
        else:
            out.add(x)
    return out


# ------------------------------------------------------------ comparisons

def _gt(d):
    """real d > 0"""
    if d.k == 'num':
        return ONE if d.a[0] > 0 else ZERO
    if d.int:
        return _ige(_add(d, num(-1)))
    return mkD(atom('gt', d), ONE, ZERO)


def _ige(d):
    """integer d >= 0"""
    if d.k == 'num':
        return ONE if d.a[0] >= 0 else ZERO
    if nonneg(d):
        return ONE
    e = _add(d, HALF)
    m = _neg(e)
    if e.fp <= m.fp:
        return mkD(atom('gt', e), ONE, ZERO)
    return mkD(atom('gt', m), ZERO, ONE)


NONNEG = [lambda x: False]


def nonneg(d):
    return NONNEG[0](d)


def isptr(x):
    return x.ty == 'ptr'


def _eq(a, b):
    if a is b:
        return ONE
    if isptr(a) or isptr(b):
        if isptr(a) and b is ZERO:
            b = NULLV
        if isptr(b) and a is ZERO:
            a = NULLV
        return _peq(a, b)
    d = _sub(a, b)
    if d.k == 'num':
        return ONE if d.a[0] == 0 else ZERO
    if d.int:
        return AND(_ige(d), _ige(_neg(d)))
    return AND(NOT(_gt(d)), NOT(_gt(_neg(d))))


def objroot(p):
    while p.k in ('fld', 'idx'):
        p = p.a[0]
    return p


def fresh(p):
    return p.k == 'sym' and p.a[0] in ('new', 'alloca')


def _peq(a, b):
    if a is b:
        return ONE
    if a is NULLV:
        a, b = b, a
    if b is NULLV:
        if a.k in ('fld', 'idx') or fresh(a) or \
                a.k == 'sym' and a.a[0] in ('fn', 'str', 'nth', 'g'):
            return ZERO
    else:
        r = same(a, b)
        if r is not None:
            return r
    if a.fp > b.fp:
        a, b = b, a
    return mkD(atom('eq', (a, b)), ONE, ZERO)


def same(A, B):
    """condition under which two addresses are the same; None: opaque"""
    if A is B:
        return ONE
    if A.k == 'fld' and B.k == 'fld':
        if A.a[1:] != B.a[1:]:
            return ZERO
        return same(A.a[0], B.a[0]) or _peqraw(A.a[0], B.a[0])
    if A.k == 'idx' and B.k == 'idx':
        x, y = A.a[0], B.a[0]
        c = ONE if x is y else bufsame(x, y)
        if c is ZERO:
            return ZERO
        return AND(c, _eq(A.a[1], B.a[1]))
    if 'fld' in (A.k, B.k) and 'idx' in (A.k, B.k):
        return ZERO
    ra, rb = objroot(A), objroot(B)
    if A.k in ('fld', 'idx') or B.k in ('fld', 'idx'):
        if fresh(ra) or fresh(rb):
            if ra is not rb:
                return ZERO
        # embedded member against a plain pointer
        return None
    if fresh(ra) or fresh(rb):
        return ZERO
    if nthof(A) and nthof(B):
        if A.a[1] is B.a[1]:
            return _eq(A.a[3], B.a[3])
        return None
    if clof(A) is not None and clof(B) is not None:
        # different list nodes hold different classifiers
        x, y = clof(A), clof(B)
        if nthof(x) and nthof(y) and x.a[1] is y.a[1]:
            return _eq(x.a[3], y.a[3])
    return None


def nthof(p):
    return p.k == 'sym' and p.a[0] == 'nth'


def clof(p):
    if p.k == 'sym' and p.a[0] == 'ld' and p.a[1].k == 'fld' and \
            p.a[1].a[1:] == ('Clist', 'cl'):
        return p.a[1].a[0]
    return None


def _peqraw(a, b):
    if a.fp > b.fp:
        a, b = b, a
    return mkD(atom('eq', (a, b)), ONE, ZERO)


def bufsame(x, y):
    """may two buffers be one?"""
    if x is y:
        return ONE
    if fresh(x) or fresh(y):
        return ZERO
    if x.k == 'sym' and y.k == 'sym':
        if x.a[0] == 'ld' and y.a[0] == 'ld':
            a, b = x.a[1], y.a[1]
            if a.k == 'fld' and b.k == 'fld':
                if a.a[1:] != b.a[1:]:
                    return ZERO
                c = same(a, b)
                return c if c is not None else _peqraw(x, y)
            if a.k != b.k:
                return ZERO
        # distinct parameters, or a parameter and an owned buffer
        return ZERO
    return ZERO


# --------------------------------------------------------- lifted builders

def add(a, b):
    return apply('+', _add, a, b)


def sub(a, b):
    return apply('-', _sub, a, b)


def mul(a, b):
    return apply('*', _mul, a, b)


def div(a, b):
    return apply('/', _div, a, b)


def neg(a):
    return apply('neg', _neg, a)


def gt(a, b):
    return simp(apply('gt', lambda x, y: _gt(_sub(x, y)), a, b))


def ige(a, b):
    return simp(apply('ige', lambda x, y: _ige(_sub(x, y)), a, b))


def eq(a, b):
    return simp(apply('eq', _eq, a, b))


def fld(b, S, f):
    return apply('fld.%s.%s' % (S, f), lambda x: _fld(x, S, f), b)


def idx(b, i):
    return apply('idx', _idx, b, i)


def truth(v):
    """value as a 0/1 condition"""
    def f(x):
        if x is ONE or x is ZERO:
            return x
        return NOT(_eq(x, ZERO))
    return simp(apply('truth', f, v))


def _pow(x, y):
    if y.k == 'num' and y.a[0].denominator == 1 and abs(y.a[0]) <= 8:
        n = int(y.a[0])
        r = ONE
        for _ in range(abs(n)):
            r = _mul(r, x)
        return r if n >= 0 else _div(ONE, r)
    return fnl('pow', x, y)


def _isq(x):
    return x.k == 'num'


INTF = {
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b,
}


def binop(op, a, b):
    if op in ('add', 'fadd'):
        return add(a, b)
    if op in ('sub', 'fsub'):
        return sub(a, b)
    if op in ('mul', 'fmul'):
        return mul(a, b)
    if op == 'fdiv':
        return div(a, b)
    if op == 'shl':
        return apply('shl', lambda x, y: _mul(x, num(2 ** int(y.a[0])))
                     if y.k == 'num' else fnl('shl', x, y), a, b)
    if op in INTF:
        def f(x, y):
            if _isq(x) and _isq(y):
                return num(INTF[op](int(x.a[0]), int(y.a[0])))
            if op == 'and' and (x is ZERO or y is ZERO):
                return ZERO
            if op == 'or' and x is ZERO:
                return y
            if op == 'or' and y is ZERO:
                return x
            if x.fp > y.fp:
                x, y = y, x
            return fnl('b' + op, x, y)
        return apply(op, f, a, b)
    if op in ('sdiv', 'udiv'):
        def f(x, y):
            if y is ONE:
                return x
            if _isq(x) and _isq(y) and y.a[0]:
                q = abs(x.a[0]) // abs(y.a[0])
                return num(q if (x.a[0] < 0) == (y.a[0] < 0) else -q)
            if y.fp:
                # exact when it cancels
                q = leaf_if(x.fp * pow(y.fp, -1, P) % P)
                if q is not None and q.int:
                    return q
            return fnl('idiv', x, y)
        return apply('sdiv', f, a, b)
    if op in ('srem', 'urem'):
        return apply('srem', lambda x, y: fnl('imod', x, y), a, b)
    if op in ('lshr', 'ashr'):
        return apply('shr', lambda x, y: fnl('shr', x, y), a, b)
    if op == 'frem':
        return apply('frem', lambda x, y: fnl('fmod', x, y), a, b)
    raise Undecided("operation %s" % op)


def leaf_if(fp):
    return _leaf.get(fp)


def call(name, args):
    """mathematical functions of the C library"""
    if name in ('fmax', 'maxnum', 'fmaxf'):
        return ite(gt(args[0], args[1]), args[0], args[1])
    if name in ('fmin', 'minnum', 'fminf'):
        return ite(gt(args[1], args[0]), args[0], args[1])
    if name in ('fabs', 'abs', 'labs', 'fabsf'):
        return ite(gt(args[0], ZERO), args[0], neg(args[0]))
    if name == 'pow':
        return apply('pow', _pow, *args)
    if name == 'sqrt':
        return apply('pow', _pow, args[0], HALF)
    if name == 'exp2':
        return apply('pow', _pow, num(2), args[0])
    if name in MATH:
        return apply(name, lambda *x: fnl(name, *x), *args)
    return None


MATH = {'exp', 'log', 'tanh', 'sin', 'cos', 'tan', 'floor', 'ceil', 'round',
        'log2', 'log10', 'log1p', 'expm1', 'sinh', 'cosh', 'atan', 'fmod',
        'trunc', 'rint', 'erf', 'hypot', 'atan2', 'cbrt', 'nearbyint',
        'lround', 'copysign'}


# ------------------------------------------------------------ substitution

def refs(v, memo=None):
    """all leaves occurring anywhere inside a value"""
    memo = set() if memo is None else memo
    st = [v]
    while st:
        x = st.pop()
        if x in memo:
            continue
        if isinstance(x, D):
            memo.add(x)
            st += [x.hi, x.lo]
            st += [x.at.d] if x.at.k == 'gt' else list(x.at.d)
        elif isinstance(x, L):
            memo.add(x)
            st += [y for y in x.a if isinstance(y, (L, D))]
            if x.k == 'poly':
                st += [y for mon, _ in x.a[0] for y, _ in mon]
    return memo


_occ = {}


def occurs(v, s):
    key = (v.fp, s.fp)
    r = _occ.get(key)
    if r is None:
        r = _occ[key] = s in refs(v)
    return r


def subst(v, m, memo=None):
    """replace leaves; m: leaf -> value"""
    if not m:
        return v
    memo = {} if memo is None else memo
    if not isinstance(v, (L, D)):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if v in m:
        return m[v]
    if isinstance(v, D):
        if v.at.k == 'gt':
            d = subst(v.at.d, m, memo)
            c = mkD(v.at, ONE, ZERO) if d is v.at.d else \
                apply('gtx', _gtx, d)
        else:
            a, b = (subst(x, m, memo) for x in v.at.d)
            c = mkD(v.at, ONE, ZERO) if (a, b) == v.at.d else eq(a, b)
        r = simp(ite(c, subst(v.hi, m, memo), subst(v.lo, m, memo)))
    else:
        r = lsubst(v, m, memo)
    memo[v] = r
    return r


def _gtx(d):
    """re-build a test whose expression is already shifted (integers)"""
    if d.k == 'num':
        return ONE if d.a[0] > 0 else ZERO
    e = _sub(d, HALF)
    if e.int:
        return _ige(e)
    m = _sub(_neg(d), HALF)
    if m.int:
        return NOT(_ige(m))
    return mkD(atom('gt', d), ONE, ZERO)


def lsubst(v, m, memo):
    k = v.k
    if k == 'num' or not any(s in m for s in refs(v)):
        return v
    s = lambda x: subst(x, m, memo)
    if k == 'poly':
        r = ZERO
        for mon, c in v.a[0]:
            t = num(c)
            for x, e in mon:
                y = s(x)
                for _ in range(abs(e)):
                    t = mul(t, y) if e > 0 else div(t, y)
            r = add(r, t)
        return r
    if k == '*':
        return mul(s(v.a[0]), s(v.a[1]))
    if k == 'inv':
        return div(ONE, s(v.a[0]))
    if k == 'fld':
        return fld(s(v.a[0]), *v.a[1:])
    if k == 'idx':
        return idx(s(v.a[0]), s(v.a[1]))
    if k == 'fn':
        n = v.a[0]
        if n == 'pow':
            return apply('pow', _pow, s(v.a[1]), s(v.a[2]))
        vals = [s(x) for x in v.a[1:]]
        if n in BINDERS:
            # (bound, count, ..., body): only the count distributes
            return apply('bind' + n + repr([getattr(x, 'fp', x)
                                            for x in vals[1:]]),
                         lambda N: fnl(n, N, *vals[1:]), vals[0])
        if n in ('tup', 'rd'):
            return fnl(n, *vals)
        if n == 'lam':
            return apply('lam' + repr([getattr(x, 'fp', x)
                                       for x in vals[1:]]),
                         lambda N: fnl(n, N, *vals[1:]), vals[0])
        return apply('fn.' + n, lambda *x: fnl(n, *x), *vals)
    if k == 'sym':
        base = list(v.a)
        if base[0] == 'res':
            # only the arguments distribute: what the callee saw has
            # variables of its own
            for i in range(3 + base[2], len(base)):
                base[i] = s(base[i])
        pos = [i for i, x in enumerate(v.a) if isinstance(x, (L, D)) and
               (base[0] != 'res' or i < 3 + base[2])]
        vals = [s(v.a[i]) for i in pos]

        def f(*xs):
            a = list(base)
            for i, x in zip(pos, xs):
                a[i] = x
            if a[0] == 'nth':
                return _nth(a[1], a[2], a[3])
            return sym(tuple(a), v.ty)
        return apply('sym%d' % H(tuple(
            ('#',) if i in pos else x.fp if isinstance(x, (L, D)) else x
            for i, x in enumerate(base))) + v.ty, f, *vals)
    raise Undecided("substitution in %s" % k)


def tup(x):
    """entries and lists of values as one opaque leaf"""
    if isinstance(x, (L, D)):
        return x
    if isinstance(x, (tuple, list)):
        return fnl('tup', *[tup(y) if isinstance(y, (tuple, list)) else y
                            for y in x if not isinstance(y, frozenset)])
    return x


BINDERS = {'sum', 'exists', 'first', 'fold', 'mfold', 'trip'}


def bound(k):
    return sym(('b', k), 'int')


def bself(k):
    return sym(('s', k), 'real')


def height(v):
    """1 + the largest bound index inside"""
    h = 0
    for x in refs(v):
        if x.__class__ is L and x.k == 'sym' and x.a[0] in ('b', 's'):
            h = max(h, x.a[1] + 1)
    return h


def _nth(head, f, i):
    return sym(('nth', head, f, i), 'ptr')


# ------------------------------------------------------------------ print

def show(v, d=0):
    if d > 14:
        return '...'
    s = lambda x: show(x, d + 1) if isinstance(x, (L, D)) else str(x)
    if isinstance(v, D):
        if v.at.k == 'gt':
            t = '%s > 0' % s(v.at.d)
        else:
            t = '%s == %s' % tuple(s(x) for x in v.at.d)
        if v.hi is ONE and v.lo is ZERO:
            return '[%s]' % t
        return '(%s ? %s : %s)' % (t, s(v.hi), s(v.lo))
    if v.k == 'num':
        return str(v.a[0]) if v.a[0].denominator < 100000 else \
            '%g' % float(v.a[0])
    if v.k == 'sym':
        if v.a[0] == 'ld':
            return s(v.a[1])
        if v.a[0] == 'arg':
            return 'arg%d' % v.a[1]
        if v.a[0] == 'nth':
            return '%s{%s}' % (s(v.a[1]), s(v.a[3]))
        return '.'.join(s(x) for x in v.a)
    if v.k == 'fld':
        return '%s->%s' % (s(v.a[0]), v.a[2])
    if v.k == 'idx':
        return '%s[%s]' % (s(v.a[0]), s(v.a[1]))
    if v.k == 'fn':
        return '%s(%s)' % (v.a[0], ', '.join(s(x) for x in v.a[1:]))
    if v.k == 'inv':
        return '1/(%s)' % s(v.a[0])
    if v.k == 'poly':
        out = []
        for mon, c in v.a[0]:
            ms = [s(x) + ('^%d' % e if e != 1 else '') for x, e in mon]
            cs = str(c) if c.denominator < 100000 else '%g' % float(c)
            if c == -1 and ms:
                ms[0] = '-' + ms[0]
            elif c != 1 or not ms:
                ms.insert(0, cs)
            out.append('*'.join(ms))
        return '(%s)' % ' + '.join(out) if len(out) > 1 else out[0]
    return '(%s %s %s)' % (s(v.a[0]), v.k, s(v.a[1]))
