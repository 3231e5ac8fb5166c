"""Save/load byte-stream agreement."""
from model import *

RULE = ("for xcsf_save/xcsf_load and for the save/load pair of every vtable, "
        "the sequences of file transfers on all paths are equal event by event "
        "(byte count, field, order, loop trip count), and a restored field is "
        "not overwritten after it was read; every mutable member set up by "
        "init is among the saved items or recomputed from them")

# counts that are equal by construction (verified below): struct field pairs
LISTCOUNT = {'Set.list': ('Set', 'size'), 'Net.tail': ('Net', 'n_layers'),
             'Net.head': ('Net', 'n_layers')}


def events(g):
    ev = []
    for n in g.nodes:
        if n.kind == 'call' and n.a[0] in ('fwrite', 'fread'):
            ev.append(n)
        elif n.kind == 'call' and n.a[0] in (
                'fputc', 'fputs', 'fprintf', 'putc', 'fgetc', 'getc', 'fgets',
                'fscanf', 'fseek', 'rewind', 'fsetpos', 'ungetc', 'fread_unlocked',
                'fwrite_unlocked'):
            ev.append(n)
        elif n.kind == 'vcall' and '_impl_' in n.a[0] and \
                slot_kind(n.a[0])[1] in ('save', 'load'):
            ev.append(n)
        elif n.kind == 'call' and n.fn.mod.prog.funcs.get(n.a[0]) is not None \
                and n.res is not None:
            # opaque (recursive) repo function given the stream
            if any(x.k == 'arg' and x.a[1] == 'fp' or
                   (x.k == 'call' and x.a[1] == 'fopen') for x in n.a[1:]):
                ev.append(n)
    return ev


class Ev:
    """one transferred item: a call, one element of a small local array, or a
    counted loop that transfers the elements of an array one by one"""
    def __init__(self, n, sub=0, of=1):
        self.n, self.sub, self.of = n, sub, of
        self.kind, self.a, self.loc = n.kind, n.a, n.loc
        self.block = None


class Side:
    def __init__(self, prog, fname, write):
        self.fname = fname
        self.g = Expander(prog).expand(fname)
        self.cn = Canon(self.g)
        self.loops = innermost(loops(self.g))
        self.write = write
        self.nx = {}
        self.ev = []
        self.first = {}
        self.follow = {}
        raw = events(self.g)
        inl = {}
        for n in raw:
            inl.setdefault(self.loops.get(n), []).append(n)
        for n in raw:
            k = 1
            if n.kind == 'call' and n.a[0] in ('fread', 'fwrite') and \
                    base_alloca(n.a[1]) is not None:
                c = self.cn(n.a[3])
                if c.k == 'c' and 1 < c.a[0] <= 16:
                    k = c.a[0]
            es = [Ev(n, i, k) for i in range(k)]
            for x, y in zip(es, es[1:]):
                self.follow[x] = y
            self.ev += es
            L = self.loops.get(n)
            entry = n
            for e in es:
                e.loop = L
            if k == 1 and n.kind == 'call' and n.a[0] in ('fread', 'fwrite') \
                    and L is not None and inl[L] == [n]:
                ad = self.cn(n.a[1])
                if ad.k == 'idx' and ad.a[1].k == 'ind' and \
                        ad.a[1].a[0] is C(0) and ad.a[1].a[1] == 1:
                    t = trips(self.g, self.cn, L, [n])
                    if t and t[0] == 'n':
                        es[0].block = (ad.a[0], t[1])
                        es[0].loop = L.parent
                        es[0].L = L
                        entry = L.header
            self.first[entry] = es[0]

    def nexts(self, e):
        if e in self.nx:
            return self.nx[e]
        out = []
        if e is None:
            st = [self.g.entry]
        elif e in self.follow:
            self.nx[e] = [self.follow[e]]
            return self.nx[e]
        elif e.block:
            st = [s for _, s, _ in e.L.exits]
        else:
            st = [s for s, _ in e.n.succ]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.first:
                out.append(self.first[x])
                continue
            if x is self.g.exit:
                out.append('END')
                continue
            st.extend(s for s, _ in x.succ)
        self.nx[e] = out
        return out

    def count(self, e):
        if e.block:
            return mkop('mul', self.cn(e.a[3]), e.block[1])
        if e.of > 1:
            return C(1)
        return self.cn(e.a[3])

    def bytes(self, e, sub):
        return poly(subst(mkop('mul', self.cn(e.a[2]), self.count(e)), sub))

    def value(self, e, sub):
        if e.block:
            return subst(mk('ld', e.block[0]), sub)
        t = e.a[1]
        if e.of > 1:
            v = mk('ld', mk('idx', base_alloca(t), C(e.sub)))
        elif t.k == 'alloca':
            v = self.cn(mk('ld', t))
        else:
            v = mk('ld', self.cn(t))
        return subst(v, sub)


def base_alloca(t):
    if t.k == 'cast':
        t = t.a[1]
    if t.k == 'idx' and t.a[1] is C(0):
        t = t.a[0]
    return t if t.k == 'alloca' else None


ORD = {1: 'head-to-tail', -1: 'tail-to-head'}


def walked(g, L):
    """(direction, struct) in which a loop walks a linked list"""
    for n, s, cd in L.exits:
        if cd is None or cd[0].k != 'cmp':
            continue
        for p, o in ((cd[0].a[1], cd[0].a[2]), (cd[0].a[2], cd[0].a[1])):
            if p.k == 'phi' and o is NULL and \
                    g.phi.get(p.a[0], {}).get('kind') == 'iter':
                info = g.phi[p.a[0]]
                i = info['init']
                st = info['step']
                first = i.a[0].a[2] if i.k == 'ld' and i.a[0].k == 'fld' \
                    else None
                if st[1] == 'next' and first != 'tail':
                    return 1, st[0]
                if st[1] == 'prev' and first == 'tail':
                    return -1, st[0]
                return None
    return None


def built(side, L, st):
    """order in which the loop L (and what follows) builds a list of st nodes
    from the items it reads: 1 head-to-tail, -1 tail-to-head"""
    g = side.g
    kinds = set()
    outer = []
    for n in g.nodes:
        if n.kind != 'store':
            continue
        a, v = n.a
        if a.k == 'fld' and a.a[1:] == (st, 'next'):
            if is_alloc(a.a[0]) and v.k == 'ld' and n in L.nodes:
                if any(m.kind == 'store' and m.a[0] is v.a[0] and
                       m.a[1] is a.a[0] for m in L.nodes):
                    kinds.add('push')
                else:
                    kinds.add('?')
            elif n in L.nodes and is_alloc(v):
                kinds.add('append')
            elif n in L.nodes and v is not NULL:
                kinds.add('?')
            elif n not in L.nodes and a.a[0].k == 'phi' and v.k == 'phi':
                outer.append(n)
        elif is_alloc(v) and n in L.nodes and a.k == 'phi':
            # through a pointer to the last link
            if any(t.k == 'fld' and t.a[1:] == (st, 'next')
                   for x, _ in g.phi.get(a.a[0], {}).get('inc', ())
                   for t in subterms(x)):
                kinds.add('append')
    if st == 'Llist' and kinds != {'push'}:
        # networks grow at the head: neural_push
        kinds = {'push'} if any(
            x.fname == 'neural_push' for x in g.insts
            if hasattr(x, 'fname')) or 'neural_push' in names_in(g, L) \
            else {'?'}
    if len(kinds) != 1 or '?' in kinds:
        return None
    r = 1 if kinds == {'append'} else -1
    for n in outer:
        cur, prev = n.a[0].a[0], n.a[1]
        ip = g.phi.get(prev.a[0])
        ic = g.phi.get(cur.a[0])
        if not ip or not ic:
            return None
        vp = {x for x, _ in ip['inc']}
        vc = {x for x, _ in ic['inc']}
        if cur in vp and NULL in vp and any(
                x.k == 'ld' and x.a[0] is n.a[0] for x in vc):
            r = -r
        else:
            return None
    return r


def names_in(g, L):
    """functions whose body is (partly) inlined in the loop"""
    return {f for n in L.nodes for f in [n.fn.name]} | {
        n.a[0] for n in L.nodes if n.kind in ('enter', 'call') and
        isinstance(n.a[0], str)}


def keep(L, n, v):
    """polarity of the branch edge at n that bypasses the guarded block: the
    successor that post-dominates (is reachable from) the other one"""
    t = {c[1]: s for s, c in n.succ}
    if len(t) == 2:
        if t[False] in reach_fwd([t[True]]):
            return False
        if t[True] in reach_fwd([t[False]]):
            return True
    return False


def compare(R, prog, tag, sname, lname, eqcounts):
    S = Side(prog, sname, True)
    L = Side(prog, lname, False)
    R.count('functions inlined', len(S.g.insts) + len(L.g.insts))
    R.count('transfer sites', len(S.ev) + len(L.ev))
    if not S.ev or not L.ev:
        if bool(S.ev) != bool(L.ev):
            R.obligation(tag, False, "%s transfers %d items but %s transfers %d"
                         % (sname, len(S.ev), lname, len(L.ev)))
        return 0
    sub = {}
    ok = True
    pairs = []
    restored = {}

    def compatible(vs, vl):
        if vs is vl:
            return True
        if vl.k == 'ld' and vl.a[0].k == 'alloca':
            sub[vl] = vs
            return True
        if vl.k == 'ld' and vl.a[0].k == 'idx' and \
                vl.a[0].a[0].k == 'alloca' and vl.a[0].a[1].k == 'c':
            sub[vl] = vs
            if vl.a[0].a[1] is C(0):
                sub[mk('ld', vl.a[0].a[0])] = vs
            return True
        rs, cs = chain(vs)
        rl, cl = chain(vl)
        if vs.k == 'ld' and vl.k == 'ld' and vs.a[0].k != vl.a[0].k:
            return False       # scalar against array
        if rl.k in ('new', 'merge', 'phi') or rs.k in ('new', 'merge', 'phi'):
            a, b = vs, vl
            while b.k == a.k and b.k in ('ld', 'fld', 'idx'):
                if b.k == 'fld' and a.a[1:] != b.a[1:]:
                    return False
                a, b = a.a[0], b.a[0]
            if b.k in ('new', 'merge', 'phi'):
                sub[b] = a
                return True
            return False
        return False

    def match(es, el):
        if es.kind != el.kind:
            return None
        if es.kind == 'vcall':
            ks, kl = slot_kind(es.a[0]), slot_kind(el.a[0])
            if ks[0] != kl[0] or ks[1] != 'save' or kl[1] != 'load':
                return None
            for x, y in zip(es.a[1:-1], el.a[1:-1]):
                if not compatible(S.cn(x), subst(L.cn(y), sub)):
                    return None
            return True
        if (es.a[0], el.a[0]) != ('fwrite', 'fread'):
            return None
        vs = S.value(es, {})
        vl = L.value(el, sub)
        if not compatible(vs, vl):
            return None
        bs, bl = S.bytes(es, {}), L.bytes(el, sub)
        if bs != bl and not eqcounts(bs, bl):
            return None
        return True

    def desc(n, side):
        if n == 'END':
            return 'end of ' + side.fname
        if n.kind == 'vcall':
            return "%s of %s at %s" % (n.a[0], n.a[1:-1], n.loc)
        return "%s of %s, %s x %s bytes at %s" % (
            n.a[0], side.value(n, {}), side.cn(n.a[2]), side.count(n), n.loc)

    work = [(None, None)]
    seen = set(work)
    nok = 0
    while work and ok:
        s, l = work.pop(0)
        Ns, Nl = S.nexts(s), L.nexts(l)
        used = set()
        for es in Ns:
            hit = None
            for el in Nl:
                if es == 'END' or el == 'END':
                    if es == el:
                        hit = el
                        break
                    continue
                if match(es, el):
                    hit = el
                    break
            if hit is None:
                ok = False
                R.obligation("%s:%s" % (tag, desc(es, S)), False,
                             "%s: %s has no matching read in %s; there the "
                             "next possible transfers are: %s" % (
                                 tag, desc(es, S), lname,
                                 "; ".join(desc(x, L) for x in Nl)))
                break
            used.add(hit)
            if es != 'END':
                nok += 1
                pairs.append((es, hit))
                if (es, hit) not in seen:
                    seen.add((es, hit))
                    work.append((es, hit))
        if not ok:
            break
        for el in Nl:
            if el not in used:
                ok = False
                R.obligation("%s:%s" % (tag, desc(el, L)), False,
                             "%s: %s has no matching write in %s; there the "
                             "next possible transfers are: %s" % (
                                 tag, desc(el, L), sname,
                                 "; ".join(desc(x, S) for x in Ns)))
                break
    if not ok:
        return len(pairs)
    # trip counts
    done = set()
    done2 = set()
    for es, el in pairs:
        ls, ll = es.loop, el.loop
        if (ls, ll) in done:
            continue
        done.add((ls, ll))
        if (ls is None) != (ll is None):
            R.obligation(tag + ':loop', False, "%s: %s and %s are not in the "
                         "same loop nesting" % (tag, desc(es, S), desc(el, L)))
            ok = False
            continue
        if ls is None:
            continue
        ts = trips(S.g, S.cn, ls, [e.n for e in S.ev])
        tl = trips(L.g, L.cn, ll, [e.n for e in L.ev])
        R.count('transfer loops')
        if ts is None or tl is None:
            R.notes.append("%s: trip count not determined at %s" % (tag, es.loc))
            continue

        def norm(t):
            if t[0] == 'list':
                _, c = chain(t[1])
                if c and c[-1] in LISTCOUNT:
                    st, f = LISTCOUNT[c[-1]]
                    b = t[1]
                    while b.k != 'fld':
                        b = b.a[0]
                    return ('n', poly(mk('ld', mk('fld', b.a[0], st, f))))
                return ('len', t[1])
            b = subst(t[1], sub)
            if b.k == 'ind' and b.a[2].k == 'bnd' and b.a[2].a[0] == 'list' \
                    and b.a[0] is C(0) and b.a[1] == 1:
                return ('len', b.a[2].a[1])
            return ('n', poly(b))
        a, b = norm(ts), norm(tl)
        good = a == b
        if not good and a[0] == b[0] == 'n':
            # counts on objects allocated by the loader
            def nm(p):
                return sorted((tuple(sorted(str(chain(x)[1][-1:]) for x in m)),
                               v) for m, v in p)
            good = nm(a[1]) == nm(b[1]) and any(
                chain(x)[0].k in ('new', 'merge') for m, _ in b[1] for x in m)
        R.obligation("%s:loop %s" % (tag, es.loc.split(' ')[0]), good,
                     "%s: loop writing %s runs %s times but the loop reading it "
                     "at %s runs %s times" % (tag, desc(es, S), a, el.loc, b))
    for es, el in pairs:
        if es.loop is None or el.loop is None or (es.loop, el.loop) in done2:
            continue
        done2.add((es.loop, el.loop))
        o = walked(S.g, es.loop)
        b = built(L, el.loop, o[1]) if o else None
        if o and b:
            R.count('list orders')
            R.obligation("%s: order of the list behind %s" % (
                tag, es.loc.split(' ')[0]), o[0] == b,
                "%s: the items written at %s are written in %s order of the "
                "list, but the loop reading them at %s rebuilds it in %s order"
                % (tag, es.loc, ORD[o[0]], el.loc, ORD[b]),
                key="%s:order:%s" % (tag, o[1]))
    # text keeps its terminator
    for es, el in pairs:
        if es.kind != 'call' or es.block or es.of > 1:
            continue
        cnt = S.cn(es.a[3])
        ls = [x for x in subterms(cnt) if x.k == 'call' and
              x.a[1] in ('strlen', 'strnlen')]
        if len(ls) != 1 or S.value(es, {}).k != 'ld' or \
                ls[0].a[2] is not S.cn(es.a[1]):
            continue
        good = poly(cnt) == poly(mkop('add', ls[0], C(1)))
        if not good:
            base = L.cn(el.a[1])
            good = any(n.kind == 'store' and n.a[1] is C(0) and
                       L.cn(n.a[0]).k == 'idx' and L.cn(n.a[0]).a[0] is base
                       for n in L.g.nodes)
        R.obligation("%s: text at %s keeps its terminator" % (tag, es.loc),
                     good, "%s: %s writes %s bytes of a text, so the terminator"
                     " is lost and the text read back at %s does not end" % (
                         tag, es.loc, cnt, el.loc), key=tag + ':terminator')
    # the files are opened for writing from scratch, and for reading
    for sd, md in ((S, 'w'), (L, 'r')):
        for n in sd.g.nodes:
            if n.kind == 'call' and n.a[0] == 'fopen':
                m = n.a[2].a[0] if n.a[2].k == 'str' else None
                if m is not None:
                    R.obligation("%s: %s opens the file with mode %s" % (
                        tag, sd.fname, md), m.startswith(md) and '+' not in m,
                        "%s: %s opens the file with mode %r at %s" % (
                            tag, sd.fname, m, n.loc), key=tag + ':mode:' + md)
    # restored locations not overwritten afterwards
    live = reach_bwd([L.g.exit])
    for es, el in pairs:
        if el.kind != 'call' or base_alloca(el.a[1]) is not None:
            continue
        addr = el.block[0] if el.block else L.cn(el.a[1])
        ldaddr = mk('ld', addr)
        fresh = {n for n in L.g.nodes if n.res is not None and
                 is_alloc(n.res) and contains(addr, L.cn(n.res)) and
                 L.cn(n.res) is not addr}
        # paths that do not test the restored value and do not replace the
        # object that holds it
        seen2 = set()
        st = [s for s, _ in el.n.succ]
        while st:
            n = st.pop()
            if n in seen2 or n is el.n or n in fresh or n not in live:
                continue
            seen2.add(n)
            if n.kind == 'store':
                a2 = L.cn(n.a[0])
                same = a2 is addr or (a2.k == 'idx' and a2.a[0] is addr) or \
                    (addr.k == 'ld' and addr.a[0] is a2)
                if same and L.cn(n.a[1]) is not mk('ld', a2):
                    ok = False
                    R.obligation("%s:overwrite %s" % (tag, addr), False,
                                 "%s: %s is restored at %s and then overwritten"
                                 " with %s at %s" % (
                                     tag, addr, el.loc, L.cn(n.a[1]), n.loc))
            for s2, cd in n.succ:
                if cd is not None and contains(L.cn(cd[0]), ldaddr):
                    # outcome depends on the value read: sanitising branch;
                    # follow only the edge that leads on to the exit directly
                    if cd[1] != keep(L, n, ldaddr):
                        continue
                st.append(s2)
    R.obligation("%s (%s/%s, %d transfers)" % (tag, sname, lname, len(pairs)),
                 ok, key=tag + ':summary')
    return len(pairs)


def saved_items(prog, fn):
    from effects import star, STAR
    S = Side(prog, fn, True)
    out = set()
    subs = set()
    for n in S.ev:
        if n.kind == 'call' and n.a[0] == 'fwrite':
            v = S.value(n, {})
            if v.k == 'ld':
                a = v.a[0]
                if a.k == 'ld':
                    a = mk('idx', a, STAR)
                out.add(star(a))
        elif n.kind == 'vcall':
            st, _ = slot_kind(n.a[0])
            if st == 'LayerVtbl':
                subs.add(star(S.cn(n.a[1])))
    return out, subs


# rebuilt from scratch before use
TRANSIENT = {('XCSF', 'cover'), ('XCSF', 'pa_size'), ('Net', 'train')}


def persistence(R, prog, tag, iname, sname, lname, root,
                skip=lambda a: False, im=frozenset()):
    """every mutable member established by init is written by save, unless
    load recomputes it from other members"""
    import c02, c03, readset
    from effects import may_writes, final_defs, value_map
    g = Expander(prog).expand(iname)
    cn = Canon(g)
    sv, subs = saved_items(prog, sname)
    reads = readset.fields(prog)
    im = c03.immut(prog) | im
    gl = Expander(prog).expand(lname)
    cl = Canon(gl)
    fl = final_defs(gl, cl)
    n = 0
    for a in sorted(may_writes(g, cn), key=str):
        lf = c02.leaf(a)
        if not contains(a, root) or lf not in reads or skip(a):
            continue
        if a.k == 'fld' and c03.isptr(prog, lf):
            continue
        if lf in c03.SCRATCH_SAVE and not (
                lf in (('Layer', 'output'),) and a in sv):
            continue
        if lf in TRANSIENT or lf[0] == 'Llist':
            continue
        if any(contains(a, s) for s in subs):
            continue
        n += 1
        ok = a in sv or lf in im
        if not ok:
            ds = fl.get(a, ())
            ok = bool(ds) and all(
                d[0] == 'val' and any(x.k == 'ld' and contains(x, root)
                                      for x in subterms(d[1]))
                for d, _ in ds)
        R.obligation("%s: %s saved" % (tag, a), ok,
                     "%s: %s is part of the state (%s sets it, operators "
                     "change it) but %s does not write it" % (
                         tag, a, iname, sname), key="%s:%s:unsaved" % (tag, a))
    return n


def members(R, prog):
    """every member of the system and of the parameter structures it points
    to is among the written items"""
    import c03
    sv, _ = saved_items(prog, 'xcsf_save')
    leafs, to = set(), set()
    for a in sv:
        for t in subterms(a):
            if t.k == 'fld' and t.a[0].k == 'ld' and t.a[0].a[0].k == 'fld':
                to.add(t.a[0].a[0].a[1:])
        while a.k == 'idx':
            a = a.a[0]
        if a.k == 'ld':
            a = a.a[0]
        if a.k == 'fld':
            leafs.add(a.a[1:])
    n = 0
    for S in sorted(prog.fieldnames):
        if not S.startswith('Args'):
            continue
        for f in prog.fieldnames[S]:
            if (S, f) in to or f in LINKS:
                continue
            n += 1
            R.obligation("parameter %s.%s saved" % (S, f), (S, f) in leafs,
                         "the parameter %s.%s is not among the items that "
                         "xcsf_save writes" % (S, f),
                         key="param:%s.%s" % (S, f))
    return n


def unchanged(prog, ks):
    """layer members no operator of this layer type stores"""
    st = set()
    g = Expander(prog).expand(ks['init'])
    iv = {}
    for n in g.nodes:
        if n.kind == 'store' and n.a[0].k == 'fld' and \
                n.a[0].a[0].k == 'arg':
            iv.setdefault(n.a[0].a[1:], set()).add(n.a[1])
    for k, v in ks.items():
        if v and k not in ('init', 'load', 'copy', 'json_import'):
            g = Expander(prog).expand(v)
            for n in g.nodes:
                if n.kind == 'store' and n.a[0].k == 'fld' and not (
                        n.a[1].k in ('c', 'fc') and
                        iv.get(n.a[0].a[1:]) == {n.a[1]}):
                    st.add(n.a[0].a[1:])
    return {('Layer', f) for f in prog.fieldnames['Layer']
            if ('Layer', f) not in st}


def run(R):
    prog = ir.load()
    # Layer.n_biases == Layer.n_filters is an invariant of the convolutional
    # layer: accept either as a transfer count there.
    def conv(bs, bl):
        def nm(p):
            return {(tuple('Layer.n_biases' if str(chain(x)[1][-1:]) ==
                           "('Layer.n_filters',)" else x.n for x in m), v)
                    for m, v in p}

        def nm2(p):
            return {(tuple('Layer.n_biases' if chain(x)[1][-1:] in (
                ('Layer.n_filters',), ('Layer.n_biases',)) else x.n
                for x in m), v) for m, v in p}
        return nm2(bs) == nm2(bl)

    total = compare(R, prog, 'system', 'xcsf_save', 'xcsf_load',
                    lambda a, b: False)
    nv = 0
    for vt, (st, slots) in sorted(vtables(prog).items()):
        ks = {k.split('_impl_')[1]: v for k, v in slots.items()}
        if 'save' in ks and 'load' in ks:
            nv += 1
            eq = conv if 'convol' in (ks['save'] or '') else \
                (lambda a, b: False)
            total += compare(R, prog, vt.split('@')[0], ks['save'],
                             ks['load'], eq)
    np = 0
    for vt, (st, slots) in sorted(vtables(prog).items()):
        ks = {k.split('_impl_')[1]: v for k, v in slots.items()}
        if ks.get('save') and ks.get('load') and ks.get('init'):
            np += persistence(R, prog, vt.split('@')[0], ks['init'],
                              ks['save'], ks['load'],
                              mk('arg', 0 if st == 'LayerVtbl' else 1),
                              im=unchanged(prog, ks)
                              if st == 'LayerVtbl' else frozenset())
    np += persistence(R, prog, 'classifier', 'cl_init', 'cl_save', 'cl_load',
                      mk('arg', 1))
    x = mk('arg', 0)

    def sets(a):
        return any(t.k == 'fld' and t.a[1] == 'XCSF' and t.a[2] in
                   ('kset', 'mset', 'aset', 'prev_pset')
                   for t in subterms(a))
    for i in ('param_init', 'xcsf_init'):
        np += persistence(R, prog, 'system', i, 'xcsf_save', 'xcsf_load', x,
                          sets)
    R.require('parameter members', members(R, prog), 40)
    R.require('state members', np, 300)
    R.require('save/load pairs', nv, 20)
    R.require('matched transfers', total, 300)
    R.assume = ["fwrite/fread transfer complete items (short transfers are out "
                "of scope)", "same machine ABI for save and load"]
