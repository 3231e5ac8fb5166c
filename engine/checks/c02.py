"""Loaded objects are complete: every field the constructor establishes is
established by the loader too, buffers have the same extent, and recomputed
fields get the constructor's value."""
from effects import *
import readset

RULE = ("for every component with an init and a load routine (and classifier, "
        "system): each field or buffer content that init may write and that "
        "the program reads is written on every path through load; each buffer "
        "init allocates is allocated by load with the same extent; each scalar "
        "load recomputes instead of reading gets the value init gives it")

# link structure of networks: built by pushing layers one by one
LINKED = {('Llist', None), ('Net', 'head'), ('Net', 'tail'),
          ('Net', 'n_layers')}


def linked(a):
    t = a
    while t.k in ('fld', 'idx', 'ld'):
        if t.k == 'fld' and ((t.a[1], None) in LINKED or
                             (t.a[1], t.a[2]) in LINKED):
            return True
        t = t.a[0]
    return False


def leaf(a):
    """(struct, field) named by an address (content addresses: the array)"""
    t = a
    while t.k in ('idx', 'ld'):
        t = t.a[0]
    return (t.a[1], t.a[2]) if t.k == 'fld' else None


def simple(t):
    """term whose equality with another simple term is decided by poly()"""
    if t.k in ('c', 'fc', 'null', 'arg', 'fn', 'g', 'str'):
        return True
    if t.k in ('ld', 'fld'):
        return all(simple(c) for c in t.a if isinstance(c, T))
    if t.k == 'op' and t.a[0] in ('add', 'sub', 'mul', 'or'):
        return all(simple(c) for c in t.a[1:])
    return False


class Fn:
    def __init__(self, prog, name):
        self.name = name
        self.g = Expander(prog).expand(name)
        self.cn = Canon(self.g)
        self.sizes = alloc_sizes(self.g, self.cn)
        self.vals = value_map(self.g, self.cn)
        self.fin = final_defs(self.g, self.cn)


def compare(R, prog, tag, iname, lname, root, skip=lambda a: False,
            defaults=None, extents=True, values=True):
    I, L = Fn(prog, iname), Fn(prog, lname)
    R.count('functions inlined', len(I.g.insts) + len(L.g.insts))
    wi = may_writes(I.g, I.cn)
    wl = must_writes(L.g, L.cn)
    reads = readset.fields(prog)
    n = 0
    for a in sorted(wi, key=lambda t: str(t)):
        if not contains(a, root) or skip(a):
            continue
        lf = leaf(a)
        if lf is None or lf not in reads:
            continue
        if lf[0] in ('Llist',):
            continue
        n += 1
        ok = a in wl
        if not ok and defaults is not None and a.k == 'fld':
            vs = I.fin.get(a, ())
            ok = bool(vs) and all(d[0] == 'val' and
                                  d[1] is defaults.get((a.a[1], a.a[2]))
                                  for d, _ in vs)
        R.obligation("%s: %s set by %s" % (tag, a, lname), ok,
                     "%s: %s is set by %s (%s) but %s does not set it on every "
                     "path: the loaded object has no valid value for it" % (
                         tag, a, iname, wi[a][0].loc, lname),
                     key="%s:%s:unset" % (tag, a))
    for a, szs in sorted(I.sizes.items(), key=lambda kv: str(kv[0])):
        if not extents or not contains(a, root) or linked(a) or skip(a):
            continue
        Ls = L.sizes.get(a)
        if not Ls:
            continue        # reported above as unset when it matters
        want = {poly(resolve(s, I.vals)) for s, _ in szs} | \
            {poly(s) for s, _ in szs}
        for s, nd in Ls:
            R.count('buffer extents compared')
            r = resolve(resolve(s, L.vals), I.vals)
            R.obligation("%s: extent of %s" % (tag, a),
                         poly(r) in want or poly(s) in want,
                         "%s: %s allocates %s with %s bytes at %s but %s "
                         "allocates it with %s bytes" % (
                             tag, lname, a, s, nd.loc, iname,
                             [x for x, _ in szs]),
                         key="%s:%s:extent" % (tag, a))
    for a, ds in sorted(I.fin.items(), key=lambda kv: str(kv[0])):
        if not values or not contains(a, root) or linked(a) or skip(a) or \
                a.k != 'fld':
            continue
        dl = L.fin.get(a)
        if dl is None or any(d[0] != 'val' for d, _ in dl) or \
                any(d[0] != 'val' for d, _ in ds):
            continue
        vi = [resolve(d[1], I.vals) for d, _ in ds]
        vl = [resolve(resolve(d[1], L.vals), I.vals) for d, _ in dl]
        ui = [d[1] for d, _ in ds]
        ul = [d[1] for d, _ in dl]
        if any(x.k == 'ld' and x is not mk('ld', a) for x in ui) and all(
                simple(x) and contains(x, root) and x.k == 'ld' and
                x is not mk('ld', a) for x in ui + ul) and NULL in vi + vl:
            # the value of a member that another routine establishes
            vi, vl = ui, ul
        elif not all(simple(x) for x in vi + vl):
            continue
        R.count('recomputed values compared')
        R.obligation("%s: value of %s" % (tag, a),
                     {poly(x) for x in vl} <= {poly(x) for x in vi},
                     "%s: %s gives %s the value %s (%s) but %s gives it %s" % (
                         tag, lname, a, vl, [x.loc for _, x in dl], iname, vi),
                     key="%s:%s:value" % (tag, a))
    restored(R, tag, I, L, lname, root)
    return n


def restored(R, tag, I, L, lname, root):
    """what load computes from a stored item is computed after the item was
    read, and a block that is filled from the file is as long as what is read
    into it"""
    g, cn = L.g, L.cn
    rd = {}
    for n in g.nodes:
        if n.kind == 'call' and n.a[0] == 'fread':
            a = cn(n.a[1])
            if a.k == 'fld':
                rd.setdefault(mk('ld', a), []).append(n)
            elif a.k == 'ld' and star(a.a[0]) in L.sizes:
                have = {poly(resolve(resolve(z, L.vals), I.vals))
                        for z, _ in L.sizes[star(a.a[0])]} | {
                    poly(z) for z, _ in L.sizes[star(a.a[0])]}
                t = mkop('mul', cn(n.a[2]), cn(n.a[3]))
                got = {poly(t), poly(resolve(resolve(t, L.vals), I.vals))}
                if not all(simple(z) for z, _ in L.sizes[star(a.a[0])]) or \
                        not simple(t):
                    continue
                R.count('blocks read into')
                R.obligation("%s: %s holds what is read into it" % (tag, a),
                             bool(have & got),
                             "%s: %s reads %s bytes into %s at %s, which is "
                             "allocated with %s bytes" % (
                                 tag, lname, t, a, n.loc,
                                 [z for z, _ in L.sizes[star(a.a[0])]]),
                             key="%s:%s:fits" % (tag, a))
    if not rd:
        return
    use = [(m, d[1]) for a, ds in L.fin.items() for d, m in ds
           if m is not None and d[0] == 'val' and contains(a, root)]
    use += [(m, z) for a, zs in L.sizes.items() for z, m in zs]
    bad = set()
    aft = {}
    for m, v in use:
        for t in subterms(v):
            for e in rd.get(t, ()):
                if e not in aft:
                    aft[e] = reach_fwd([q for q, _ in e.succ])
                if m in aft[e]:
                    continue
                if m not in aft:
                    aft[m] = reach_fwd([q for q, _ in m.succ])
                if any(w.kind == 'store' and cn(w.a[0]) is t.a[0] and
                       (w is not m) and m in reach_fwd([w])
                       for w in g.nodes):
                    continue        # established before, in this routine
                if e in aft[m] and t not in bad:
                    bad.add(t)
                    R.obligation("%s: %s used after it was read" % (tag, t),
                                 False, "%s: %s computes %s from %s at %s, "
                                 "before that item is read at %s" % (
                                     tag, lname, v, t, m.loc, e.loc),
                                 key="%s:%s:early" % (tag, t))
    R.obligation("%s: stored items are used after they were read" % tag,
                 True, key=tag + ':early')


def run(R):
    prog = ir.load()
    n = 0
    nv = 0
    g = Expander(prog).expand('layer_defaults')
    cn = Canon(g)
    dfl = {}
    for a, ds in final_defs(g, cn).items():
        if a.k == 'fld' and len(ds) == 1:
            d, _ = next(iter(ds))
            if d[0] == 'val':
                dfl[(a.a[1], a.a[2])] = d[1]
    for vt, (st, slots) in sorted(vtables(prog).items()):
        ks = {k.split('_impl_')[1]: v for k, v in slots.items()}
        if ks.get('init') and ks.get('load'):
            nv += 1
            layer = st == 'LayerVtbl'
            n += compare(R, prog, vt.split('@')[0], ks['init'], ks['load'],
                         mk('arg', 0 if layer else 1),
                         defaults=dfl if layer else None)
        if ks.get('init') and ks.get('json_import'):
            # blocks that importing a description replaces
            g = Expander(prog).expand(ks['json_import'])
            new = {}
            if g.exit is not None:
                new = alloc_sizes(g, Canon(g))
            if new:
                R.count('importers that allocate')
                n += compare(R, prog, vt.split('@')[0] + '-json', ks['init'],
                             ks['json_import'], mk('arg', 1),
                             skip=lambda a: not any(
                                 a is b or contains(a, mk('ld', b))
                                 for b in new))
    n += compare(R, prog, 'classifier', 'cl_init', 'cl_load', mk('arg', 1))
    n += compare(R, prog, 'classifier-json', 'cl_init', 'cl_json_import',
                 mk('arg', 1))

    def skipsys(a):
        # allocated once, outlive a load
        if a.k == 'fld' and a.a[2] in ('act', 'cond', 'pred', 'ea', 'dargs',
                                       'targs', 'loss_ptr'):
            return True
        t = a
        while t.k in ('fld', 'idx', 'ld'):
            if t.k == 'fld' and t.a[2] in ('kset', 'prev_pset', 'mset',
                                           'aset'):
                return True
            t = t.a[0]
        return False
    x = mk('arg', 0)
    n += compare(R, prog, 'system-parameters', 'param_init', 'xcsf_load', x,
                 skipsys, extents=False, values=False)
    n += compare(R, prog, 'system-state', 'xcsf_init', 'xcsf_load', x, skipsys,
                 values=False)
    # derived from a loaded code: recomputed after the code is read
    g = Expander(prog).expand('xcsf_load')
    cn = Canon(g)
    for code, ptr in (('LOSS_FUNC', 'loss_ptr'),):
        rd = [m for m in g.nodes if m.kind == 'call' and m.a[0] == 'fread' and
              cn(m.a[1]) is mk('fld', x, 'XCSF', code)]
        wr = [m for m in g.nodes if m.kind == 'store' and
              cn(m.a[0]) is mk('fld', x, 'XCSF', ptr)]
        ok = bool(rd)
        for r in rd:
            after = reach_fwd([r])
            ok = ok and any(w in after for w in wr)
            # every way from the read to the return passes the recomputation
            # (the dispatch on the code that guards the stores)
            tests = {m for m in g.nodes for s, cd in m.succ if cd is not None
                     and contains(cn(cd[0]), mk('ld', mk('fld', x, 'XCSF',
                                                         code)))}
            tests |= set(wr)
            free = reach_fwd([s for s, _ in r.succ], lambda q: q in tests)
            ok = ok and g.exit not in free
        R.obligation('system: %s follows the loaded %s' % (ptr, code), ok,
                     "xcsf_load does not recompute %s after reading %s" % (
                         ptr, code), key='system:%s:derived' % ptr)
    R.require('init/load pairs', nv, 20)
    R.require('fields and buffers', n, 700)
    R.assume = ["a routine called on a fresh object writes only through the "
                "object it is given", "loops that fill a buffer run over its "
                "whole extent"]
