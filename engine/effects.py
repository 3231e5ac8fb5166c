"""Write/read/free effect summaries over an expanded graph."""
from model import *

WRITERS = {   # extern -> index (in node.a) of the pointer whose content is written
    'fread': 1, 'memcpy': 1, 'memset': 1, 'memmove': 1, 'strncpy': 1,
    'strcpy': 1, 'snprintf': 1, 'sprintf': 1,
}


def write_addrs(n, cn):
    """canonical addresses definitely written by node n.  Array contents are
    reported as the address of the (indexed) element with index '*'."""
    if n.kind == 'store':
        return [saddr(cn(n.a[0]))]
    if n.kind == 'call' and n.a[0] in WRITERS:
        t = n.a[WRITERS[n.a[0]]]
        c = cn(t)
        S = whole(n) if n.a[0] in ('memcpy', 'memmove') else None
        if S:
            out = []
            each(n.fn.mod.prog, S, c, c, out)
            return [a for a, _ in out]
        if t.k in ('fld', 'alloca'):
            return [star(c)]
        return [mk('idx', star(c), mk('*'))]
    if n.kind == 'call' and n.a[0] == 'calloc':
        c = cn(n.res)
        return [mk('idx', star(c), mk('*'))]
    return []


STAR = mk('*')


def star(t):
    """replace every index by '*'"""
    if t.k == 'idx':
        return mk('idx', star(t.a[0]), STAR)
    if t.k in ('fld',):
        return mk('fld', star(t.a[0]), *t.a[1:])
    if t.k == 'ld':
        return mk('ld', star(t.a[0]))
    return t


def saddr(a):
    """store address; a store through a bare pointer hits its element 0"""
    a = star(a)
    if a.k not in ('fld', 'alloca', 'idx', 'g'):
        a = mk('idx', a, STAR)
    return a


def must_writes(g, cn):
    """addresses written on every path from entry to normal exit.  A write in
    a loop body counts (zero-trip loops have nothing to initialise)."""
    if g.exit is None:
        return set()
    live = reach_bwd([g.exit])
    inl = innermost(loops(g))
    # loop writes are hoisted: anything written on every path through the body
    # counts at the loop header
    gen = {}
    for n in g.nodes:
        w = write_addrs(n, cn)
        if w:
            gen.setdefault(n, set()).update(w)
    ls = sorted(loops(g), key=lambda l: -l.depth)
    for L in ls:
        # must over body: paths header -> back edge
        S = {}
        backs = [n for n in L.nodes if any(s is L.header for s, _ in n.succ)]
        res = None
        order = [n for n in rpo(g) if n in L.nodes]
        val = {L.header: set(gen.get(L.header, ()))}
        ch = True
        first = True
        while ch:
            ch = False
            for n in order:
                if n is L.header:
                    continue
                ins = None
                for p, _ in n.pred:
                    if p in L.nodes and p in val:
                        ins = set(val[p]) if ins is None else ins & val[p]
                if ins is None:
                    continue
                out = ins | gen.get(n, set())
                if val.get(n) != out:
                    val[n] = out
                    ch = True
        for b in backs:
            if b in val and b in live:
                res = set(val[b]) if res is None else res & val[b]
        if res:
            gen.setdefault(L.header, set()).update(res)
    st = forward(g, frozenset(),
                 lambda n, s: frozenset(s | gen.get(n, set()))
                 if n in live else None,
                 lambda a, b: a & b)
    return set(st[g.exit] or ())


def may_writes(g, cn):
    out = {}
    live = reach_bwd([g.exit]) if g.exit else set()
    for n in g.nodes:
        if n in live:
            for a in write_addrs(n, cn):
                out.setdefault(a, []).append(n)
    return out


def whole(n):
    """struct copied by a memcpy of exactly one object, or None"""
    if len(n.a) < 4 or n.a[3].k != 'c':
        return None
    p = n.fn.mod.prog
    if not hasattr(p, '_sizes'):
        p._sizes = {}
        for S in p.fieldnames:
            if S in p.structs:
                p._sizes.setdefault(p.sizeof(('named', S)), []).append(S)
    ss = p._sizes.get(n.a[3].a[0], [])
    return ss[0] if len(ss) == 1 and n.a[3].a[0] > 16 else None


def each(prog, S, d, s, out):
    for f in prog.fieldnames[S]:
        t = prog.field_type(S, f)
        a, b = mk('fld', d, S, f), mk('fld', s, S, f)
        nm = t[1] if isinstance(t, tuple) and t[0] == 'struct' else None
        if nm in prog.fieldnames:
            each(prog, nm, a, b, out)
        else:
            out.append((star(a), ('val', mk('ld', b), a)))


def defs_of(n, cn):
    """[(address*, value descriptor)] for the writes of node n.  For bulk
    writers the descriptor is ('copy', source*, bytes) / ('read',) / ..."""
    if n.kind == 'store':
        return [(saddr(cn(n.a[0])), ('val', cn(n.a[1]), cn(n.a[0])))]
    if n.kind == 'call':
        f = n.a[0]
        if f in ('memcpy', 'memmove'):
            t = n.a[1]
            c = cn(t)
            S = whole(n)
            if S:
                out = []
                each(n.fn.mod.prog, S, c, cn(n.a[2]), out)
                return out
            a = star(c) if t.k in ('fld', 'alloca') else \
                mk('idx', star(c), STAR)
            return [(a, ('copy', cn(n.a[2]), poly(cn(n.a[3])), c))]
        if f == 'fread':
            t = n.a[1]
            c = cn(t)
            a = star(c) if t.k in ('fld', 'alloca') else \
                mk('idx', star(c), STAR)
            return [(a, ('read',))]
        if f == 'memset':
            c = cn(n.a[1])
            return [(mk('idx', star(c), STAR), ('set', n.a[2]))]
        if f == 'calloc':
            return [(mk('idx', star(cn(n.res)), STAR), ('zero',))]
        if f == 'malloc':
            return [(mk('idx', star(cn(n.res)), STAR), ('garbage',))]
        if f in WRITERS:
            c = cn(n.a[WRITERS[f]])
            return [(mk('idx', star(c), STAR), ('bulk', f))]
    return []


def final_defs(g, cn, at=None):
    """address* -> set of (descriptor, node) that may be the last write when
    the function returns; ('none', None) = not written on some path.  Element
    stores inside loops replace the whole array (a zero-trip loop has nothing
    to write)."""
    at = at or g.exit
    live = reach_bwd([at])
    gen = {}
    addrs = {}
    for n in g.nodes:
        if n in live:
            for a, d in defs_of(n, cn):
                gen.setdefault(n, {})[a] = (d, n)
    # loop summaries: an address defined on every way round the body is
    # defined at loop exit even if the header can leave at once
    ls = sorted(loops(g), key=lambda l: -l.depth)
    NONE = ('none', None)
    pre = {}
    for L in ls:
        for n in L.nodes:
            for a, d in gen.get(n, {}).items():
                pre.setdefault(L.header, {}).setdefault(a, set()).add(d)

    # which addresses are must-written by the loop body
    def body_must(L):
        order = [n for n in rpo(g) if n in L.nodes]
        val = {L.header: set(gen.get(L.header, {}))}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n is L.header:
                    continue
                ins = None
                for p, _ in n.pred:
                    if p in val and p in L.nodes:
                        ins = set(val[p]) if ins is None else ins & val[p]
                if ins is None:
                    continue
                o = ins | set(gen.get(n, {}))
                for L2 in ls:
                    if L2.header is n and L2 is not L and L2 in bm:
                        o |= bm[L2]
                if val.get(n) != o:
                    val[n] = o
                    ch = True
        res = None
        for b in L.nodes:
            if b in val and b in live and \
                    any(s is L.header for s, _ in b.succ):
                res = set(val[b]) if res is None else res & val[b]
        return res or set()
    bm = {}
    for L in ls:
        bm[L] = body_must(L)
    hdr = {}
    for L in ls:
        hdr.setdefault(L.header, []).append(L)

    def tr(n, s):
        if n not in live:
            return None
        if n in hdr:
            s = dict(s)
            for L in hdr[n]:
                for a in bm[L]:
                    s[a] = frozenset(pre[L.header][a])
        gn = gen.get(n)
        if gn:
            s = dict(s)
            for a, d in gn.items():
                s[a] = frozenset([d])
        return s

    def join(a, b):
        if a == b:
            return a
        r = {}
        for k in set(a) | set(b):
            r[k] = a.get(k, frozenset([NONE])) | b.get(k, frozenset([NONE]))
        return r
    st = forward(g, {}, tr, join)
    return st[at] or {}


def rebase(t, m):
    return subst(t, m)


def alloc_size(n):
    """byte-size term of an allocation node"""
    f = n.a[0]
    if f == 'malloc':
        return n.a[1]
    if f == 'calloc':
        return mkop('mul', n.a[1], n.a[2])
    if f == 'realloc':
        return n.a[2]
    return None


def alloc_sizes(g, cn):
    """pointer field* -> [(canonical size term, node)] of allocations that end
    up in it"""
    out = {}
    for n in g.nodes:
        if n.kind == 'call' and n.res is not None and is_alloc(n.res):
            sz = alloc_size(n)
            if sz is None:
                continue
            hs = {cn(h) for h in cn.homes.get(n.res, []) if h.k != 'alloca'}
            for h in hs:
                out.setdefault(star(h), []).append((cn(sz), n))
    return out


def value_map(g, cn):
    """ld(addr) -> value, for scalars with exactly one final plain value"""
    m = {}
    for a, ds in final_defs(g, cn).items():
        if len(ds) == 1:
            d, n = next(iter(ds))
            if d[0] == 'val' and a.k == 'fld' and not contains(d[1], STAR):
                v = d[1]
                if not contains(v, mk('ld', a)):
                    m[mk('ld', a)] = v
    return m


def resolve(t, m, depth=8):
    """apply value_map repeatedly"""
    for _ in range(depth):
        t2 = subst(t, m)
        if t2 is t:
            break
        t = t2
    return t
