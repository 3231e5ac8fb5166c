"""Copies are complete and independent of their source."""
from effects import *
import readset
import c01, c02

RULE = ("for every copy routine (component vtables, classifier, layer "
        "arguments): each owned pointer of the copy is a fresh allocation or "
        "the result of copying the source's member, never the source's own "
        "pointer; each scalar and each persistent buffer content equals the "
        "source's; buffers have the constructor's extent")

# working storage: rebuilt before it is next used, so a copy may leave it fresh
SCRATCH = {('Layer', 'state'), ('Layer', 'output'), ('Layer', 'delta'),
           ('Layer', 'bias_updates'), ('Layer', 'weight_updates'),
           ('Layer', 'indexes'), ('Layer', 'temp'),
           ('PredRLS', 'tmp_input'), ('PredRLS', 'tmp_vec'),
           ('PredRLS', 'tmp_matrix1'), ('PredRLS', 'tmp_matrix2'),
           ('PredRLS', 'matrix'),      # reset on copy by design
           ('PredNLMS', 'tmp_input'), ('CondTernary', 'tmp_input'),
           ('Graph', 'tmp_input'), ('Graph', 'tmp_state'),
           ('Net', 'train')}
SCRATCH_SAVE = SCRATCH | {('Layer', 'prev_cell')}
# recurrent memory: a copied layer starts with cleared memory by design
SCRATCH |= {('Layer', f) for f in (
    'prev_state', 'prev_cell', 'cell', 'f', 'i', 'g', 'o', 'c', 'h', 'temp2',
    'temp3', 'dc')}


def isptr(prog, lf):
    t = prog.field_type(*lf)
    return isinstance(t, tuple) and t[0] == 'ptr'


class Ctx:
    def __init__(self, R, prog, tag, cname, obj, src, dest=None, init=None,
                 save=None, scratch=frozenset(), skip=lambda a: False,
                 init_obj=None, ptr_exempt=(), fixed=frozenset()):
        self.fixed = fixed
        self.eq = {}
        self.R, self.prog, self.tag = R, prog, tag
        self.C = c02.Fn(prog, cname)
        C_ = self.C
        self.dest = dest or C_.cn(C_.g.ret)
        self.src = src
        self.obj = obj
        items = {}
        self.bytes = {}
        self.I = c02.Fn(prog, init) if init else None
        if save:
            S = c01.Side(prog, save, True)
            for n in S.ev:
                if n.kind != 'call' or n.a[0] != 'fwrite':
                    continue
                v = S.value(n, {})
                if v.k != 'ld':
                    continue
                a = v.a[0]
                if a.k == 'ld':
                    a = mk('idx', a, STAR)
                    self.bytes.setdefault(star(a), set()).add(S.bytes(n, {}))
                items[star(a)] = 'saved'
        if self.I:
            io = init_obj or obj
            for a in may_writes(self.I.g, self.I.cn):
                if contains(a, io):
                    items.setdefault(subst(a, {io: obj}), 'init')
        self.items = items
        self.scratch = scratch
        self.skip = skip
        self.ptr_exempt = ptr_exempt

    def initval(self, t):
        """value at construction; only members that never change afterwards
        still have it"""
        if not self.I:
            return t
        if not hasattr(self, 'kept'):
            self.kept = {k: v for k, v in self.I.vals.items()
                         if c02.leaf(k.a[0]) is None or
                         self.immutable(c02.leaf(k.a[0]))}
        t = resolve(t, self.kept)
        for f, r in self.eq.items():
            t = subst(t, {mk('ld', mk('fld', self.obj, 'Layer', f)):
                          mk('ld', mk('fld', self.obj, 'Layer', r))})
        return t

    def run(self):
        R, tag = self.R, self.tag
        obj, src, dest = self.obj, self.src, self.dest
        C_ = self.C
        reads = readset.fields(self.prog)
        cnt = 0
        # members copied wholesale by a copy routine
        sub = set()
        for a, ds in C_.fin.items():
            for d, n in ds:
                if d[0] == 'val' and n.kind == 'store':
                    raw = n.a[1]
                    if raw.k == 'call' and raw.a[1].endswith('_impl_copy'):
                        sub.add(a)
        for it in sorted(self.items, key=str):
            if not contains(it, obj) or self.skip(it):
                continue
            lf = c02.leaf(it)
            if lf is None or lf not in reads or lf[0] == 'Llist' or \
                    c02.linked(it):
                continue
            if lf[0] == 'Net':
                continue
            d = subst(it, {obj: dest})
            s = subst(it, {obj: src})
            # inside a member that is copied by its own routine
            inner = False
            for m in sub:
                if m is not d and contains(d, mk('ld', m)):
                    inner = True
            if inner:
                continue
            # value reached through a member pointer that aliases the source
            ds = C_.fin.get(d)
            cnt += 1
            where = ds and [n.loc for _, n in ds if n is not None]
            key = "%s:%s" % (tag, it)
            if it.k != 'fld':
                self.content(it, d, s, ds, lf, key, where)
            elif isptr(self.prog, lf) and not lf[1].endswith('_vptr') and \
                    lf[1] not in self.ptr_exempt:
                self.pointer(it, d, s, ds, key, where)
            else:
                self.scalar(it, d, s, ds, lf, key, where)
        # extents
        if self.I:
            for a, szs in sorted(self.I.sizes.items(), key=lambda x: str(x)):
                if not contains(a, obj) or c02.linked(a) or self.skip(a):
                    continue
                Ls = C_.sizes.get(subst(a, {obj: dest}))
                if not Ls:
                    continue
                want = {poly(self.initval(z)) for z, _ in szs} | \
                    {poly(z) for z, _ in szs}
                for z, nd in Ls:
                    z1 = self.norm(z)
                    R.count('buffer extents compared')
                    R.obligation("%s: extent of %s" % (tag, a),
                                 poly(z1) in want or
                                 poly(self.initval(z1)) in want,
                                 "%s: the copy allocates %s with %s bytes at "
                                 "%s but the constructor uses %s" % (
                                     tag, a, z, nd.loc, [x for x, _ in szs]),
                                 key="%s:%s:extent" % (tag, a))
        return cnt

    def norm(self, t):
        """copy-side term expressed on the object"""
        t = resolve(t, self.C.vals)
        return subst(t, {self.dest: self.obj, self.src: self.obj})

    def pointer(self, it, d, s, ds, key, where):
        R, tag = self.R, self.tag
        ok = bool(ds)
        why = "it is not set"
        for x, n in ds or ():
            if x[0] == 'copy' and star(x[1]) is s:
                ok, why = False, "it is a bitwise copy of the source pointer"
                break
            if x[0] != 'val':
                ok, why = False, "it is not set on every path"
                break
            v = x[1]
            if v is NULL:
                continue
            if contains(v, self.src) and not (v.k == 'call'):
                ok, why = False, "it is the source's own pointer %s" % v
                break
            if star(v) is mk('ld', d):
                # self-homed: the stored value must itself be fresh
                raw = n.a[1]
                if not self.fresh(raw):
                    ok, why = False, "the value %s is not fresh" % raw
                    break
                continue
            if v.k == 'call' and (v.a[1].endswith('_impl_copy') or
                                  v.a[1] in ALLOC):
                if v.a[1].endswith('_impl_copy') and \
                        star(v.a[2]) is not mk('ld', s):
                    ok, why = False, "it is a copy of %s" % v.a[2]
                    break
                continue
            if v.k == 'new':
                continue
            # alias of another member of the new object (e.g. output = layer
            # output) with the same shape as in the constructor
            if self.I:
                iv = [resolve(q[1], {}) for q, _ in self.I.fin.get(it, ())
                      if q[0] == 'val']
                if subst(v, {self.dest: self.obj}) in iv:
                    continue
            if contains(v, self.dest):
                R.notes.append("%s: %s aliases %s" % (tag, it, v))
                continue
            ok, why = False, "its value is %s" % v
            break
        R.obligation("%s: %s independent" % (tag, it), ok,
                     "%s: member %s of the copy is not its own: %s (%s)" % (
                         tag, it, why, where), key=key + ":shared")

    def fresh(self, raw, seen=None):
        seen = seen or set()
        if raw in seen:
            return True
        seen.add(raw)
        if raw.k == 'call':
            return is_alloc(raw) or raw.a[1].endswith('_impl_copy')
        if raw.k == 'phi':
            info = self.C.g.phi.get(raw.a[0])
            return bool(info and info.get('inc')) and all(
                self.fresh(v, seen) for v, _ in info['inc'])
        if raw.k == 'ld':
            vs = self.C.cn.stores.get(raw.a[0], [])
            return bool(vs) and all(self.fresh(v, seen) for v in vs)
        if raw is NULL:
            return True
        return False

    def scalar(self, it, d, s, ds, lf, key, where):
        R, tag = self.R, self.tag
        ok = bool(ds)
        why = "it is not set"
        if lf in SCRATCH:
            return
        if not ds:
            ok = False
        for x, n in ds or ():
            if x[0] == 'copy':
                if star(x[1]) is s:
                    continue
                ok, why = False, "it is copied from %s" % x[1]
                break
            if x[0] != 'val':
                ok, why = False, "it is not set on every path"
                break
            v = star(x[1])
            if v is mk('ld', s):
                continue
            if self.eq and self.initval(self.norm(v)) is \
                    self.initval(mk('ld', it)):
                continue
            # recomputed: same value as the constructor's
            v1 = self.initval(self.norm(x[1]))
            iv = {poly(self.initval(q[1])) for q, _ in
                  (self.I.fin.get(it, ()) if self.I else ())
                  if q[0] == 'val'}
            if poly(v1) in iv:
                # allowed when nothing but construction sets the field
                if self.immutable(lf):
                    continue
            ok, why = False, "it is set to %s" % x[1]
            break
        R.obligation("%s: %s copied" % (tag, it), ok,
                     "%s: %s of the copy does not equal the source's: %s (%s)"
                     % (tag, it, why, where), key=key + ":scalar")

    def immutable(self, lf):
        return lf in immut(self.prog) or lf in self.fixed

    def content(self, it, d, s, ds, lf, key, where):
        R, tag = self.R, self.tag
        if lf in SCRATCH or lf in self.scratch:
            return
        ini = self.I.fin.get(it) if self.I else None
        if self.items[it] != 'saved' and ini is not None and \
                all(q[0] in ('zero', 'garbage') for q, _ in ini):
            return
        ok = bool(ds)
        why = "it is never filled"
        for x, n in ds or ():
            if x[0] == 'copy':
                if mk('idx', star(x[1]), STAR) is not s and \
                        star(x[1]) is not s:
                    ok, why = False, "it is copied from %s" % x[1]
                    break
                want = set(self.bytes.get(it, ()))
                wl = set(want)
                for w in want:
                    wl.add(repoly(w, lambda q: self.initval(q)))
                if self.I:
                    for z, _ in self.I.sizes.get(base(it), ()):
                        wl.add(poly(z))
                        wl.add(poly(self.initval(z)))
                got = repoly(x[2], lambda q: self.norm(q))
                got2 = repoly(got, lambda q: self.initval(q))
                if wl and got not in wl and got2 not in wl:
                    ok, why = False, "%s bytes of it are copied, but it has " \
                        "%s bytes" % (showp(x[2]), [showp(w) for w in wl])
                    break
                continue
            if x[0] == 'val':
                if star(x[1]) is mk('ld', s) or deep(star(x[1]), s):
                    if idxeq(x[1], x[2]):
                        continue
                    ok, why = False, "element %s receives %s" % (x[2], x[1])
                    break
                ok, why = False, "it is filled with %s" % x[1]
                break
            ok, why = False, "it is left %s" % x[0]
            break
        R.obligation("%s: contents of %s copied" % (tag, it), ok,
                     "%s: contents of %s in the copy do not equal the "
                     "source's: %s (%s)" % (tag, it, why, where),
                     key=key + ":content")


def deep(v, s):
    return v.k == 'ld' and star(v.a[0]) is s


def idxeq(v, a):
    """value and address use the same innermost index"""
    def ix(t):
        out = []
        while t.k in ('ld', 'fld', 'idx'):
            if t.k == 'idx':
                out.append(t.a[1])
            t = t.a[0]
        return out
    return ix(v) == ix(a)


def base(it):
    t = it
    while t.k in ('idx', 'ld'):
        t = t.a[0]
    return t


def repoly(p, f):
    t = None
    for m, c in p:
        x = C(c)
        for q in m:
            x = mkop('mul', x, f(q))
        t = x if t is None else mkop('add', t, x)
    return poly(t) if t is not None else poly(C(0))


def showp(p):
    return ' + '.join('%s*%s' % (c, '*'.join(map(str, m))) for m, c in p)


_im = {}


def immut(prog):
    """struct fields only stored by init/load/copy/import style constructors
    (functions reachable only through those slots)"""
    if id(prog) in _im:
        return _im[id(prog)]
    ctor = set()
    for vt, (st, slots) in vtables(prog).items():
        for k, v in slots.items():
            if v and k.split('_impl_')[1] in ('init', 'load', 'copy',
                                              'json_import'):
                ctor.add(v)
    ctor |= {'cl_init', 'cl_load', 'cl_init_copy', 'cl_copy',
             'layer_args_init', 'layer_args_load', 'layer_args_copy'}
    ex = Expander(prog, opaque=lambda f: True)
    stored = {}
    calls = {}
    for name in prog.funcs:
        g = ex.expand(name)
        for n in g.nodes:
            if n.kind == 'store' and n.a[0].k == 'fld':
                stored.setdefault((n.a[0].a[1], n.a[0].a[2]), set()).add(name)
            if n.kind == 'call' and n.a[0] in prog.funcs:
                calls.setdefault(n.a[0], set()).add(name)

    def onlyctor(f, seen):
        if f in ctor:
            return True
        if f in seen:
            return True
        seen.add(f)
        cs = calls.get(f)
        return bool(cs) and all(onlyctor(c, seen) for c in cs)
    allf = set()
    for st, names in prog.fieldnames.items():
        for nm in names:
            allf.add((st, nm))
    r = {lf for lf in allf if all(onlyctor(f, set())
                                  for f in stored.get(lf, ()))}
    _im[id(prog)] = r
    return r


def split(g, x):
    """exit on a conjunction/disjunction: one exit per condition"""
    n, s, cd = x
    if cd is None or cd[0].k != 'phi' or not g.phi.get(cd[0].a[0], {}).get(
            'inc'):
        return [x]
    out = []
    for v, _ in g.phi[cd[0].a[0]]['inc']:
        if v.k != 'c':
            out += split(g, (n, s, (v, cd[1])))
    for p, c in n.pred:
        if c is not None:
            out += split(g, (p, s, c))
    return out


def walks(g, cn, L, src):
    """None if the loop visits every element of a list of src"""
    its = set()
    for n in L.nodes:
        for s, cd in n.succ:
            if cd is None:
                continue
            for t in subterms(cd[0]):
                if t.k == 'phi' and \
                        g.phi.get(t.a[0], {}).get('kind') == 'iter':
                    its.add(t)
        for x in n.a:
            if isinstance(x, T):
                for t in subterms(x):
                    if t.k == 'phi' and \
                            g.phi.get(t.a[0], {}).get('kind') == 'iter':
                        its.add(t)
    its = {t for t in its if contains(cn(g.phi[t.a[0]]['init']), src)}
    if not its:
        return 'the loop does not run over the source layers'
    live = reach_bwd([g.exit])
    for n, s, cd in [y for x in L.exits for y in split(g, x)]:
        if s not in live:
            continue
        if cd is not None and cd[0].k == 'cmp':
            x, y = cd[0].a[1:]
            if (x in its and y is NULL) or (y in its and x is NULL):
                continue
            one = Loop()
            one.exits, one.nodes, one.header = [(n, s, cd)], L.nodes, L.header
            t = trips(g, cn, one)
            if t and t[0] == 'n' and c01.chain(t[1])[1][-1:] in (
                    ('Net.n_layers',), ('Set.size',)) and \
                    contains(t[1], src):
                continue
        return 'the loop over the source may stop early at %s' % n.loc
    return None


def dispatch(R, prog, fn, reset):
    """a copied classifier gets copies of its three parts, from the source"""
    g = Expander(prog).expand(fn)
    cn = Canon(g)
    x, d, s = (mk('arg', i) for i in range(3))
    for vt, slot in (('CondVtbl', 'cond'), ('ActVtbl', 'act'),
                     ('PredVtbl', 'pred')):
        cps = {n for n in g.nodes if n.kind == 'vcall' and
               slot_kind(n.a[0]) == (vt, 'copy')}
        good = {n for n in cps if [cn(q) for q in n.a[1:4]] == [x, d, s]}
        ini = {n for n in g.nodes if n.kind == 'vcall' and
               slot_kind(n.a[0])[0] == vt and slot_kind(n.a[0])[1] in
               ('init', 'rand', 'cover', 'free', 'load')}
        why = None
        if cps - good:
            why = 'the copy at %s is not taken from the source' % \
                min(cps - good, key=lambda n: n.id).loc
        elif ini and not (reset and vt == 'PredVtbl'):
            why = 'it is initialised afresh at %s' % \
                min(ini, key=lambda n: n.id).loc
        elif g.exit in reach_fwd([g.entry], lambda q: q in good | ini):
            why = 'some path does not copy it'
        R.obligation("%s: %s copied from the source" % (fn, slot), why is None,
                     "%s: the %s of the copy is not the source's: %s" % (
                         fn, slot, why), key="%s:%s:dispatch" % (fn, slot))


def storeset(R, prog):
    """storing the population keeps copies of its classifiers"""
    ex = Expander(prog, opaque={'clset_add', 'cl_init_copy', 'clset_kill'})
    g = ex.expand('xcsf_store_pset')
    cn = Canon(g)
    inl = innermost(loops(g))
    x = mk('arg', 0)
    adds = [n for n in g.nodes if n.kind == 'call' and n.a[0] == 'clset_add']
    cps = [n for n in g.nodes if n.kind == 'call' and
           n.a[0] == 'cl_init_copy']
    if not adds or not cps:
        # built some other way: sharing is still visible
        sh = [n for n in g.nodes if n.kind in ('store', 'call') and
              n.kind == 'call' and n.a[0] == 'clset_add']
        ok = not adds
        R.obligation('stored population owns its classifiers', ok,
                     "xcsf_store_pset adds classifiers at %s that are not "
                     "copies" % (adds[0].loc if adds else ''),
                     key='store:shared')
        return
    for n in adds:
        why = None
        c = n.a[2]
        mk_ = [m for m in cps if m.a[2] is c]
        if not is_alloc(c) or not mk_:
            why = 'the classifier added at %s is not a fresh copy' % n.loc
        elif not any(contains(cn(m.a[3]), mk('fld', x, 'XCSF', 'pset'))
                     for m in mk_):
            why = 'it is not copied from the population'
        elif inl.get(n) is not None:
            why = walks(g, cn, inl[n], mk('fld', x, 'XCSF', 'pset'))
        R.obligation('stored population owns its classifiers', why is None,
                     "xcsf_store_pset: %s" % why, key='store:shared')


def netcopy(R, prog, tag, fn, ptr):
    """every layer of the source network is copied and linked"""
    g = Expander(prog).expand(fn)
    cn = Canon(g)
    inl = innermost(loops(g))
    vs = [n for n in g.nodes if n.kind == 'vcall' and
          n.a[0] == 'LayerVtbl.layer_impl_copy']
    ok = bool(vs)
    why = 'no layer is copied'
    for v in vs:
        L = inl.get(v)
        if L is None:
            ok, why = False, 'layers are not copied in a loop'
            break
        why = walks(g, cn, L, mk('arg', 2))
        if why:
            ok = False
            break
        o = c01.walked(g, L)
        if o and 'neural_push' in c01.names_in(g, L) and o[0] != -1:
            ok, why = False, 'the layers are pushed in %s order, so the copy ' \
                'is reversed' % c01.ORD[o[0]]
            break
        if not contains(cn(v.a[1]), mk('arg', 2)):
            ok, why = False, 'the copied layer is not the source layer'
            break
        link = [n for n in L.nodes if n.kind == 'store' and
                n.a[0].k == 'fld' and n.a[0].a[1:] == ('Llist', 'layer') and
                cn(n.a[1]) is cn(v.res)]
        if not link:
            ok, why = False, 'the copied layer is not linked into the copy'
            break
    R.obligation("%s: every layer copied and linked" % tag, ok,
                 "%s (%s): %s" % (tag, fn, why), key=tag + ':netcopy')


def run(R):
    prog = ir.load()
    n = 0
    nv = 0
    for vt, (st, slots) in sorted(vtables(prog).items()):
        ks = {k.split('_impl_')[1]: v for k, v in slots.items()}
        if not ks.get('copy') or not ks.get('init'):
            continue
        nv += 1
        layer = st == 'LayerVtbl'
        tag = vt.split('@')[0]
        obj = mk('arg', 0 if layer else 1)
        src = mk('arg', 0 if layer else 2)
        dest = None if layer else mk('arg', 1)
        if layer:
            obj = mk('obj', 'layer')
            c = Ctx(R, prog, tag, ks['copy'], obj, src, dest, None, None,
                    fixed=c01.unchanged(prog, ks))
            I = c02.Fn(prog, ks['init'])
            ren = {mk('arg', 0): obj}
            c.I = Ren(I, ren)
            for a in may_writes(I.g, I.cn):
                if contains(a, mk('arg', 0)):
                    c.items.setdefault(subst(a, ren), 'init')
            S = Ctx(R, prog, tag, ks['copy'], mk('arg', 0), src, dest, None,
                    ks['save'])
            for a, k in S.items.items():
                if contains(a, mk('arg', 0)):
                    c.items[subst(a, ren)] = k
            c.bytes = {subst(a, ren): {repoly(p, lambda q: subst(q, ren))
                                       for p in ps}
                       for a, ps in S.bytes.items()}
            if any(a.k == 'fld' and a.a[0] is c.dest and d[0] == 'val' and
                   d[1].k == 'ld' and d[1].a[0].k == 'fld' and
                   d[1].a[0].a[0] is src and d[1].a[0].a[1:] != a.a[1:]
                   for a, ds in c.C.fin.items() for d, _ in ds):
                c.eq = equal(prog, ks)
        else:
            c = Ctx(R, prog, tag, ks['copy'], obj, src, dest, ks['init'],
                    ks['save'])
        R.count('functions inlined', len(c.C.g.insts))
        n += c.run()
        if any(lf[0] == 'Net' for lf in
               filter(None, (c02.leaf(a) for a in c.items))):
            netcopy(R, prog, tag, ks['copy'], None)
    c = Ctx(R, prog, 'classifier', 'cl_init_copy', mk('arg', 1), mk('arg', 2),
            mk('arg', 1), 'cl_init', 'cl_save')
    n += c.run()
    dispatch(R, prog, 'cl_init_copy', False)
    dispatch(R, prog, 'cl_copy', True)
    storeset(R, prog)
    R.require('copy routines', nv, 20)
    R.require('members', n, 250)
    R.assume = ["working storage listed in SCRATCH is rewritten before it is "
                "read (see DESIGN.md)"]


def equal(prog, ks):
    """members of a layer type that always have the same value: every operator
    that sets one of them sets both alike"""
    fl = [f for f in prog.fieldnames['Layer']
          if not isptr(prog, ('Layer', f))]
    me = mk('arg', 0)
    com = None
    for k, fn in ks.items():
        if not fn or k in ('copy', 'load', 'save', 'free', 'print',
                           'json_export', 'json_import'):
            continue
        F = c02.Fn(prog, fn)
        val = {}
        for a, ds in F.fin.items():
            if a.k == 'fld' and a.a[0] is me and a.a[1] == 'Layer':
                val[a.a[2]] = frozenset(
                    str(poly(resolve(d[1], F.vals))) if d[0] == 'val'
                    else ('?', a.a[2], i) for i, (d, _) in enumerate(ds))
        pairs = set()
        for i, f in enumerate(fl):
            for f2 in fl[i + 1:]:
                if val.get(f) == val.get(f2) and (f in val or k != 'init'):
                    pairs.add((f, f2))
        com = pairs if com is None else com & pairs
    rep = {}
    for f, f2 in sorted(com or (), key=lambda p: (fl.index(p[0]),
                                                  fl.index(p[1]))):
        if f2 not in rep:
            rep[f2] = rep.get(f, f)
    return rep


class Ren:
    """init-side facts renamed onto a neutral object"""
    def __init__(self, I, ren):
        self.g, self.cn = I.g, I.cn
        self.sizes = {subst(a, ren): [(subst(z, ren), n) for z, n in v]
                      for a, v in I.sizes.items()}
        self.vals = {subst(a, ren): subst(v, ren) for a, v in I.vals.items()}
        self.fin = {subst(a, ren): [
            (tuple(subst(q, ren) if isinstance(q, T) else q for q in d), n)
            for d, n in ds] for a, ds in I.fin.items()}
