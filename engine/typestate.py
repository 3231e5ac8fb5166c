"""Release typestate over expanded graphs: double release, use after release,
and resources lost on some path.  Values are raw terms; facts die when the
memory or loop variable they were read from changes."""
from model import *

RELEASE = {'free': 1, 'fclose': 1, 'cJSON_Delete': 1, 'cJSON_free': 1,
           'realloc': 1}
ACQUIRE = {'malloc': 'free', 'calloc': 'free', 'realloc': 'free',
           'strdup': 'free', 'strndup': 'free', 'fopen': 'fclose',
           'fdopen': 'fclose', 'tmpfile': 'fclose',
           'cJSON_Print': 'free', 'cJSON_PrintUnformatted': 'free',
           'cJSON_PrintBuffered': 'free',
           'cJSON_Parse': 'cJSON_Delete', 'cJSON_ParseWithOpts':
           'cJSON_Delete', 'cJSON_ParseWithLength': 'cJSON_Delete',
           'cJSON_Duplicate': 'cJSON_Delete'}
OKREL = {'free': {'free', 'cJSON_free', 'realloc'}, 'fclose': {'fclose'},
         'cJSON_Delete': {'cJSON_Delete'}}
# call -> index of an argument whose ownership it takes
TAKES = {'cJSON_AddItemToArray': 2, 'cJSON_AddItemToObject': 3,
         'cJSON_AddItemToObjectCS': 3, 'cJSON_InsertItemInArray': 3,
         'cJSON_ReplaceItemInArray': 3, 'cJSON_ReplaceItemInObject': 3}


def acquires(n):
    """release kind of the resource node n returns, or None"""
    if n.kind == 'call':
        f = n.a[0]
        if f in ACQUIRE:
            return ACQUIRE[f]
        if f.startswith('cJSON_Create'):
            return 'cJSON_Delete'
    if n.kind == 'vcall' and n.a[0].endswith('_json_export'):
        return 'free'
    return None


class Flow:
    """where a value may come from: phi operands and address-taken locals"""

    def __init__(self, g):
        self.g = g
        self.st = {}
        for n in g.nodes:
            if n.kind == 'store' and n.a[0].k == 'alloca':
                self.st.setdefault(n.a[0], set()).add(n.a[1])
        self.memo = {}

    def leaves(self, t, seen=None):
        if t in self.memo:
            return self.memo[t]
        top = seen is None
        seen = set() if top else seen
        if t in seen:
            return set()
        seen.add(t)
        out = set()
        if t.k == 'phi':
            out.add(t)
            info = self.g.phi.get(t.a[0])
            for v, _ in (info or {}).get('inc') or ():
                out |= self.leaves(v, seen)
        elif t.k == 'ld' and t.a[0].k == 'alloca':
            out.add(t)
            for v in self.st.get(t.a[0], ()):
                out |= self.leaves(v, seen)
        elif t.k == 'sel':
            out |= self.leaves(t.a[1], seen) | self.leaves(t.a[2], seen)
        elif t.k == 'cast':
            out |= self.leaves(t.a[1], seen)
        else:
            out.add(t)
        if top:
            self.memo[t] = out
        return out


def phis_by_block(g):
    m = {}
    for u, info in g.phi.items():
        ins = info.get('ins')
        if ins is not None:
            m.setdefault((info['fn'].name, ins.bb.name,
                          info['inst'].stack), []).append(mk('phi', u))
    return m


def bases(t):
    """pointer values dereferenced by address t"""
    while t.k in ('fld', 'idx'):
        t = t.a[0]
    return t


def freed_analysis(g, comp=True):
    """[(kind, node, term, free node)] of double free / use after free"""
    pb = phis_by_block(g)
    out = []
    seen = set()

    def kill(s, pred):
        return frozenset(x for x in s if not pred(x[0]))

    # loads that occur in a released value
    rl = set()
    nrel = 0
    for n in g.nodes:
        if n.kind == 'call' and n.a[0] in RELEASE:
            nrel += 1
            rl |= {t for t in subterms(n.a[RELEASE[n.a[0]]]) if t.k == 'ld'}
        elif n.kind == 'vcall' and n.a[0].endswith('_impl_free'):
            nrel += 1
    if not nrel:
        return []

    def report(kind, n, t, fn):
        k = (kind, n.ins and n.loc, t)
        if k not in seen:
            seen.add(k)
            out.append((kind, n, t, fn))

    def compkey(n):
        st, op = slot_kind(n.a[0])
        obj = n.a[1] if st == 'LayerVtbl' or len(n.a) < 3 else n.a[2]
        return mk('comp', st, obj), op

    def tr(n, s):
        k = n.kind
        if k == 'bb':
            ps = pb.get((n.a[0], n.a[1], n.stack))
            if ps and s:
                s = kill(s, lambda t: any(contains(t, p) for p in ps))
            return s
        if k in ('load', 'store'):
            b = bases(n.a[0])
            for t, f in s:
                if t is b:
                    report('use after release', n, t, f)
            ldt = mk('ld', n.a[0])
            if k == 'store':
                # a value read from here before no longer names this memory
                if s:
                    s = kill(s, lambda t: contains(t, ldt))
                if ldt in rl:
                    s = s | {(mk('stale', ldt), None)}
            elif ldt in rl:
                s = kill(s, lambda t: t.k == 'stale' and t.a[0] is ldt)
            return s
        if k in ('call', 'vcall'):
            f = n.a[0]
            rel = RELEASE.get(f) if k == 'call' else None
            for i, x in enumerate(n.a[1:], 1):
                if not isinstance(x, T):
                    continue
                b = bases(x)
                for t, fn in s:
                    if t is b:
                        report('released twice' if i == rel else
                               'use after release', n, t, fn)
            if rel:
                x = n.a[rel]
                if x is not NULL and not any(
                        t.k == 'stale' and contains(x, t.a[0]) for t, _ in s):
                    s = s | {(x, n)}
            if k == 'vcall' and '_impl_' in f:
                ck, op = compkey(n)
                for t, fn in s:
                    if t is ck:
                        if op == 'free':
                            report('released twice', n, t, fn)
                        elif op not in ('init', 'copy', 'load',
                                        'json_import'):
                            report('use after release', n, t, fn)
                if op == 'free':
                    s = s | {(ck, n)}
                elif op in ('init', 'copy', 'load', 'json_import'):
                    s = kill(s, lambda t: t is ck)
            if n.res is not None:
                s = kill(s, lambda t: contains(t, n.res))
            if k == 'vcall' or f in g.prog.funcs:
                roots = [x for x in n.a[1:] if isinstance(x, T)]
                s = kill(s, lambda t: t.k == 'ld' and any(
                    contains(t, r) for r in roots if r.k not in
                    ('c', 'fc', 'null')))
            return s
        return s
    forward(g, frozenset(), tr, lambda a, b: a | b)
    return out


def lost_analysis(g):
    """[(kind, acquire node)] acquired resources not released, stored or
    returned on some path"""
    fl = Flow(g)
    pb = phis_by_block(g)
    acq = {}
    for n in g.nodes:
        k = acquires(n)
        if k and n.res is not None:
            acq[n.res] = (k, n)
    if not acq or g.exit is None:
        return []
    live = reach_bwd([g.exit])

    def hits(t):
        return [x for x in fl.leaves(t) if x in acq]

    # values that escape when stored
    def tr(n, s):
        if n not in live:
            return None
        if n.kind == 'store':
            a, v = n.a
            if a.k != 'alloca' and s:
                h = set(hits(v))
                if h:
                    s = frozenset(x for x in s if x not in h)
            return s
        if n.kind in ('call', 'vcall'):
            f = n.a[0]
            if n.kind == 'call' and f in RELEASE:
                h = set(hits(n.a[RELEASE[f]]))
                s = frozenset(x for x in s
                              if not (x in h and f in OKREL[acq[x][0]]))
            if n.kind == 'call' and f in TAKES and TAKES[f] < len(n.a):
                h = set(hits(n.a[TAKES[f]]))
                s = frozenset(x for x in s if x not in h)
            if n.kind == 'call' and f in g.prog.funcs:
                # recursive repo function: assume it may keep what it is given
                h = set()
                for x in n.a[1:]:
                    if isinstance(x, T):
                        h |= set(hits(x))
                s = frozenset(x for x in s if x not in h)
            if n.res in acq:
                s = s | {n.res}
            return s
        if n.kind == 'ret' and n.a[0] is not None and not n.stack:
            h = set(hits(n.a[0]))
            s = frozenset(x for x in s if x not in h)
        return s

    def edge(n, t, cd, s):
        if cd is None or not s:
            return s
        c, pol = cd
        if c.k == 'cmp' and c.a[0] in ('eq', 'ne') and \
                (c.a[2] is NULL or (c.a[2].k == 'c' and c.a[2].a[0] == 0)):
            isnull = (c.a[0] == 'eq') == pol
            if isnull:
                h = set(hits(c.a[1]))
                return frozenset(x for x in s if x not in h)
        return s
    st = forward(g, frozenset(), tr, lambda a, b: a | b, edge)
    res = []
    for x in st[g.exit] or ():
        res.append(acq[x])
    return res


def roots(prog):
    """functions no other repository function calls directly: API entry
    points and implementations reached through a table.  Everything else is
    inlined into some root."""
    called = set()
    own = [n for n, f in prog.funcs.items() if prog_own(f)]
    for n in own:
        for b in prog.funcs[n].blocks:
            for i in b.ins:
                if i.op in ('call', 'invoke'):
                    c = i.x['callee']
                    if c[0] == 'g' and c[1] != n:
                        called.add(c[1])
    return sorted(n for n in own if n not in called)


def prog_own(f):
    return 'cJSON' not in (f.src or '') and 'cJSON' not in f.name
