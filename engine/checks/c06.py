"""C06: every type name selects its own, complete implementation."""
from model import *
from absint import *
import ir, names
from typestate import roots

RULE = ("constant propagation of every code and name through the functions "
        "that translate between them (inverse of each other, whole names "
        "only), through the functions that select an implementation (exactly "
        "one table of the right kind, all slots filled, whose export states "
        "that name) and through every function that builds a classifier or "
        "layer (each table call uses the table selected for the type)")

VFAM = {'CondVtbl': ('Cl', 'cond_vptr', ('ArgsCond', 'type')),
        'ActVtbl': ('Cl', 'act_vptr', ('ArgsAct', 'type')),
        'PredVtbl': ('Cl', 'pred_vptr', ('ArgsPred', 'type')),
        'LayerVtbl': ('Layer', 'layer_vptr', ('Layer', 'type'))}


# the names users write in configuration files, calls and saved JSON
DOC = ['integer neural',
       'dgp dummy hyperellipsoid hyperrectangle_csr hyperrectangle_ubr neural '
       'rule_dgp rule_neural ternary tree_gp',
       'roulette tournament',
       'avgpool connected convolutional dropout lstm maxpool noise recurrent '
       'softmax upsample',
       'binary_log huber log mae mse onehot rmse',
       'cos gaussian leaky linear loggy logistic relu selu sin softmax '
       'softplus tanh',
       'constant neural nlms_linear nlms_quadratic rls_linear rls_quadratic']


def fieldhook(vals):
    """hook: loads of the given (struct, field) have the given value"""
    def hook(L, t):
        if t.k == 'ld' and t.a[0].k == 'fld':
            return vals.get((t.a[0].a[1], t.a[0].a[2]))
        return None
    return hook


def setters(prog, vt):
    """functions that store the address of a table in a vptr member of their
    own: {function: {(struct, member)}}"""
    out = {}
    for n, f in prog.funcs.items():
        if not names.own(f):
            continue
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'store' and i.a[0][0] == 'g' and i.a[0][1] in vt:
                    out.setdefault(n, set()).add(vt[i.a[0][1]][0])
    return out


def run(R):
    prog = ir.load()
    tabs = names.tables(prog)
    R.require('name tables', sum(1 for t in tabs if t[2]), 8)
    fam = {}
    nn = 0
    for e, m, d, gd in tabs:
        if d is None:
            # names that are only printed
            R.obligation("%s: names are distinct" % e,
                         len(set(m.values())) == len(m),
                         "%s: two codes have the same name: %s" % (e, m))
            continue
        inv = names.decode(gd, Sym('other'))
        R.obligation("%s: unknown names are recognised as invalid" % d,
                     inv is None or
                     (isinstance(inv, int) and inv not in m),
                     "%s maps unknown names to %s, which is the code of %s"
                     % (d, inv, m.get(inv)), key=d + ":invalid")
        for c, s in sorted(m.items()):
            nn += 1
            r = names.decode(gd, s)
            R.obligation("%s/%s: '%s' <-> %d" % (e, d, s, c), r == c,
                         "%s gives code %d the name '%s', but %s maps that "
                         "name to %s (%s)" % (e, c, s, d, r,
                                              prog.funcs[d].where()),
                         key="%s:%s" % (d, s))
            for v in (s + 'x', s + '_2', s[:-1]):
                if v in m.values() or not v:
                    continue
                r = names.decode(gd, v)
                R.obligation("%s: '%s' is not '%s'" % (d, v, s), r == inv,
                             "%s accepts '%s' as code %s (%s): names must "
                             "match in full" % (d, v, r, prog.funcs[d].where()),
                             key="%s:%s:prefix" % (d, s))
        # every code the decoder can return has a name
        codes = {t.a[0] for t in Live(gd[0]).leaves(gd[0].ret)
                 if t.k == 'c'} - {inv}
        for c in sorted(codes):
            R.obligation("%s: code %d has a name" % (d, c), c in m,
                         "%s can return %d, which %s does not name" % (d, c, e))
        for s in m.values():
            fam.setdefault(frozenset(m.values()), (e, m, d))
    R.count('names', nn)
    for doc in DOC:
        ns = doc.split()
        best = max((t for t in tabs if t[2]),
                   key=lambda t: len(set(ns) & set(t[1].values())) /
                   len(set(ns) | set(t[1].values())))
        inv = names.decode(best[3], Sym('other'))
        for s in ns:
            r = names.decode(best[3], s)
            R.obligation("%s accepts the documented name '%s'" % (best[2], s),
                         r is not None and r != inv,
                         "%s does not recognise the documented name '%s'" %
                         (best[2], s), key="%s:%s:documented" % (best[2], s))
    # which table belongs to which family of types
    vt = model_vtables(prog)
    R.require('implementation tables', len(vt), 26)
    for v, (st, slots) in sorted(vt.items()):
        for k, fn in slots.items():
            R.obligation("%s.%s filled" % (v, k), fn is not None,
                         "slot %s of %s is empty" % (k, v))
    # exported names per table: {table: {name: hook values}}
    sets = setters(prog, vt)
    R.require('functions selecting an implementation', len(sets), 4)
    famof = {}
    for st, (own, mem, tf) in VFAM.items():
        # the family whose names the tables of this kind export
        cand = {}
        for v, (vst, slots) in vt.items():
            if vst != st:
                continue
            for s in exported(prog, slots, {}):
                for key, (e, m, d) in fam.items():
                    if s in key:
                        cand[key] = cand.get(key, 0) + 1
        e2 = encoder_of(prog, tf, tabs)
        if e2:
            famof[st] = e2
        elif cand:
            k = max(cand, key=lambda q: cand[q])
            famof[st] = fam[k]
    R.require('type families', len(famof), 4)
    chosen = {}
    for st, (own, mem, tf) in sorted(VFAM.items()):
        e, m, d = famof[st]
        for f, kinds in sorted(sets.items()):
            if st not in kinds:
                continue
            g = Expander(prog).expand(f)
            # only functions that dispatch on this family's own type
            if not any(uses(c, tf) for n in g.nodes for _, c in n.succ if c):
                continue
            for c, s in sorted(m.items()):
                L = Live(g, fieldhook({tf: c}))
                tag = "%s(%s)" % (f, s)
                if not L.returns:
                    R.obligation(tag + " selects an implementation", False,
                                 "%s: the type '%s' (%d) is accepted by %s "
                                 "but has no implementation (%s)" %
                                 (f, s, c, d, prog.funcs[f].where()),
                                 key="%s:%s:none" % (st, s))
                    continue
                vs = {n.a[1].a[0] for n in L.nodes if n.kind == 'store' and
                      n.a[0].k == 'fld' and n.a[0].a[1:] == (own, mem) and
                      n.a[1].k == 'g'}
                R.obligation(tag + " selects one implementation",
                             len(vs) == 1 and all(vt[v][0] == st for v in vs),
                             "%s: type '%s' selects %s" % (f, s, sorted(vs)),
                             key="%s:%s:select" % (f, s))
                for v in vs:
                    chosen[(st, c)] = v
                    ex = exported(prog, vt[v][1], {tf: c})
                    R.obligation(
                        "%s: table %s is '%s'" % (tag, v, s), s in ex,
                        "%s selects %s for type '%s', but that "
                        "implementation is %s" % (f, v, s, sorted(ex)),
                        key="%s:%s:wrong" % (f, s))
            # unknown codes are rejected
            L = Live(g, fieldhook({tf: 4711}))
            R.obligation("%s rejects unknown types" % f, not L.returns,
                         "%s returns normally for an unknown type" % f,
                         key=f + ":unknown")
    # layers: the selected implementation accepts the layer
    for (st, c), v in sorted(chosen.items()):
        if st != 'LayerVtbl':
            continue
        fn = vt[v][1].get('layer_impl_copy')
        L = Live(Expander(prog).expand(fn), fieldhook({('Layer', 'type'): c}))
        R.obligation("%s accepts layers of type %d" % (fn, c), L.returns,
                     "%s rejects the layers %s is selected for" % (fn, v))
    foreign(R, prog, vt, chosen, famof)
    copies(R, prog)
    # rules: both parts from one implementation
    e, m, d = famof['CondVtbl']
    rulecodes = {}
    cs = [f for f in sets if 'CondVtbl' in sets[f] and 'ActVtbl' in sets[f]]
    for f in cs:
        g = Expander(prog).expand(f)
        for c, s in m.items():
            L = Live(g, fieldhook({('ArgsCond', 'type'): c}))
            if not L.returns:
                continue
            av = {n.a[1].a[0] for n in L.nodes if n.kind == 'store' and
                  n.a[0].k == 'fld' and n.a[0].a[2] == 'act_vptr' and
                  n.a[1].k == 'g'}
            cv = chosen.get(('CondVtbl', c))
            isrule = s.startswith('rule_')
            if isrule:
                rulecodes[c] = av
                ex = set()
                for v in av:
                    ex |= exported(prog, vt[v][1], {})
                R.obligation("%s: rule '%s' acts through itself" % (f, s),
                             len(av) == 1 and s in ex,
                             "%s: type '%s' selects the action %s" %
                             (f, s, sorted(av)), key="%s:%s:act" % (f, s))
            else:
                R.obligation("%s: '%s' leaves the action alone" % (f, s),
                             not av, "%s: type '%s' replaces the action by %s"
                             % (f, s, sorted(av)), key="%s:%s:act" % (f, s))
    R.require('rule types', len(rulecodes), 2)
    # construction: calls through a table use the table of the type
    nb = 0
    for f in builders(prog, sets):
        g = Expander(prog, opaque=lambda x: False).expand(f)
        objs = {n.a[0].a[0] for n in g.nodes if n.kind == 'store' and
                n.a[0].k == 'fld' and n.a[1].k == 'g' and n.a[1].a[0] in vt}
        if len(objs) != 1:
            continue
        o = next(iter(objs))
        nb += 1
        if any(n.a[0].a[1] == 'Layer' for n in g.nodes if n.kind == 'store'
               and n.a[0].k == 'fld' and n.a[1].k == 'g' and
               n.a[1].a[0] in vt):
            continue
        e, m, d = famof['CondVtbl']
        ea, ma, da = famof['ActVtbl']
        for c, s in sorted(m.items()):
            if ('CondVtbl', c) not in chosen:
                continue
            for ac, an in sorted(ma.items()):
                want = {'CondVtbl': chosen[('CondVtbl', c)],
                        'ActVtbl': next(iter(rulecodes[c]))
                        if c in rulecodes and rulecodes[c]
                        else chosen.get(('ActVtbl', ac))}
                L = Live(g, fieldhook({('ArgsCond', 'type'): c,
                                       ('ArgsAct', 'type'): ac}))
                bad = tables_used(g, L, o, want, vt)
                R.obligation("%s builds '%s' with action '%s'" % (f, s, an),
                             not bad,
                             "%s: for condition type '%s' and action type "
                             "'%s' %s" % (f, s, an, '; '.join(sorted(bad))),
                             key="%s:%s:%s" % (f, s, an))
    for f in ('cl_init', 'cl_rand', 'cl_cover', 'cl_load', 'cl_json_import'):
        if f not in prog.funcs:
            continue
        got = chooses(prog, sets, f)
        if not got and f not in ('cl_load', 'cl_cover', 'cl_json_import'):
            continue
        miss = [x for x in ('CondVtbl', 'ActVtbl', 'PredVtbl')
                if x not in got]
        R.obligation("%s chooses all implementations" % f, not miss,
                     "%s builds a classifier without selecting its %s" %
                     (f, ', '.join(miss)), key=f + ":chooses")
    R.require('functions building a classifier', nb, 3)
    # activation and loss functions
    for fn, what in (('neural_activate', 'activation'),
                     ('neural_gradient', 'derivative')):
        t = [x for x in tabs if 'relu' in x[1].values()]
        if fn not in prog.funcs or not t:
            raise ir.AnalysisError("no %s function" % fn)
        m = t[0][1]
        g = Expander(prog).expand(fn)
        a = mk('arg', 0, prog.funcs[fn].args[0])
        seen = {}
        for c, s in sorted(m.items()):
            L = Live(g, facts={a: c})
            R.obligation("%s handles '%s'" % (fn, s), L.returns,
                         "%s does not handle the %s '%s'" % (fn, what, s),
                         key="%s:%s" % (fn, s))
            ents = tuple(sorted(n.a[0] for n in L.nodes if n.kind == 'enter'))
            lv = tuple(sorted(str(x) for x in L.leaves(g.ret)))
            for c2, (k2) in seen.items():
                if L.returns:
                    R.obligation(
                        "%s: '%s' differs from '%s'" % (fn, s, m[c2]),
                        k2 != (ents, lv), "%s computes '%s' and '%s' with the "
                        "same function" % (fn, s, m[c2]),
                        key="%s:%s:same" % (fn, s))
            seen[c] = (ents, lv)
        L = Live(g, facts={a: 4711})
        R.obligation("%s rejects unknown codes" % fn, not L.returns,
                     "%s returns for an unknown code" % fn)
    t = [x for x in tabs if 'huber' in x[1].values()]
    if not t:
        raise ir.AnalysisError("no loss name table")
    m = t[0][1]
    lf = [n for n, f in prog.funcs.items() if names.own(f) and any(
        i.op == 'store' and i.a[0][0] == 'g' and i.a[0][1] in prog.funcs
        for b in f.blocks for i in b.ins)]
    nl = 0
    for f in lf:
        g = Expander(prog).expand(f)
        if not any(n.kind == 'store' and n.a[0].k == 'fld' and
                   n.a[0].a[2] == 'loss_ptr' for n in g.nodes):
            continue
        nl += 1
        seen = {}
        for c, s in sorted(m.items()):
            L = Live(g, fieldhook({('XCSF', 'LOSS_FUNC'): c}))
            ps = {n.a[1].a[0] for n in L.nodes if n.kind == 'store' and
                  n.a[0].k == 'fld' and n.a[0].a[2] == 'loss_ptr' and
                  n.a[1].k == 'fn'}
            R.obligation("%s: '%s' selects one loss function" % (f, s),
                         len(ps) == 1, "%s: loss '%s' selects %s"
                         % (f, s, sorted(ps)), key="%s:%s" % (f, s))
            for p in ps:
                R.obligation("%s: '%s' has its own function" % (f, s),
                             p not in seen, "%s: losses '%s' and '%s' both "
                             "select %s" % (f, s, seen.get(p), p),
                             key="%s:%s:same" % (f, s))
                seen[p] = s
    R.require('loss selectors', nl, 1)


def foreign(R, prog, vt, chosen, famof):
    """code that belongs to one implementation never does something only for
    a type that selects another implementation"""
    users = {}
    graphs = {}
    for v, (st, slots) in vt.items():
        for k, fn in slots.items():
            if fn is None:
                continue
            if fn not in graphs:
                graphs[fn] = Expander(prog).expand(fn)
            for n in graphs[fn].nodes:
                users.setdefault(n.fn.name, set()).add(v)
    nc = 0
    for v, (st, slots) in sorted(vt.items()):
        own_ = {c for (s, c), x in chosen.items() if x == v and s == st}
        if not own_:
            continue
        tf = VFAM[st][2]
        m = famof[st][1]
        bad = {}
        for fn in sorted({f for f in slots.values() if f}):
            g = graphs[fn]
            if g.exit is None:
                continue
            for n in g.nodes:
                if users.get(n.fn.name) != {v}:
                    continue
                for s, cd in n.succ:
                    k = tested(cd, tf)
                    if k is None or k not in m:
                        continue
                    nc += 1
                    if k not in own_ and reaches(s, g.exit):
                        bad[n.fn.name] = (n.loc, m[k])
        for f, (loc, s) in sorted(bad.items()):
            R.obligation("%s: %s" % (v, f), False, "%s tests for type '%s' at %s, but %s is only used "
                        "for %s" % (f, s, loc, v, ', '.join(
                            "'%s'" % m[c] for c in sorted(own_))),
                        key="%s:%s:foreign" % (v, s))
        R.obligation("%s: only its own types are told apart" % v, True)
    R.count('type tests inside implementations', nc)


def tested(cd, tf):
    """code k when the edge is taken only if the type member equals k"""
    if cd is None:
        return None
    c, pol = cd
    if c.k == 'cmp' and c.a[0] in ('eq', 'ne') and \
            (c.a[0] == 'eq') == bool(pol):
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if x.k == 'ld' and x.a[0].k == 'fld' and x.a[0].a[1:] == tf and \
                    y.k == 'c':
                return y.a[0]
    return None


def reaches(n, x):
    seen = {n}
    st = [n]
    while st:
        y = st.pop()
        if y is x:
            return True
        for s, _ in y.succ:
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False


def copies(R, prog):
    """a classifier copied from another one has the other one's tables"""
    VP = ('cond_vptr', 'act_vptr', 'pred_vptr')
    nf = 0
    for f in ('cl_copy', 'cl_init_copy'):
        if f not in prog.funcs:
            if f == 'cl_copy':
                raise ir.AnalysisError("no cl_copy function")
            continue
        nf += 1
        fn = prog.funcs[f]
        g = Expander(prog).expand(f)
        args = [mk('arg', i, a) for i, a in enumerate(fn.args)]
        res = {}

        def tr(n, s):
            if n.kind == 'store' and n.a[0].k == 'fld' and \
                    n.a[0].a[2] in VP and n.a[0].a[1] == 'Cl':
                s = dict(s)
                s[(n.a[0].a[0], n.a[0].a[2])] = frozenset([n.a[1]])
            if n is g.exit:
                res.update(s)
            return s

        def join(a, b):
            return {k: a.get(k, frozenset()) | b.get(k, frozenset())
                    for k in set(a) | set(b)}
        forward(g, {}, tr, join, None)
        objs = {o for o, _ in res}
        if len(objs) != 1:
            raise ir.AnalysisError("%s writes the tables of %d objects" %
                                   (f, len(objs)))
        o = next(iter(objs))
        for vp in VP:
            vs = res.get((o, vp), frozenset())
            ok = bool(vs) and all(
                t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[2] == vp and
                t.a[0].a[0] in args and t.a[0].a[0] is not o for t in vs)
            R.obligation("%s: the copy's %s is the original's" % (f, vp), ok,
                         "%s leaves the %s of the copy as %s instead of the "
                         "original's" % (f, vp, sorted(map(str, vs)) or
                                         'it was'),
                         key="%s:%s:copy" % (f, vp))
    R.require('functions copying a classifier', nf, 1)


def model_vtables(prog):
    return {v: x for v, x in vtables(prog).items()}


def uses(c, tf):
    return any(t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[1:] == tf
               for t in subterms(c[0]))


def encoder_of(prog, tf, tabs):
    """the name table applied to a type member"""
    encs = {t[0]: t for t in tabs if t[2]}
    for n, f in sorted(prog.funcs.items()):
        if names.own(f) and names.callees(f) & set(encs):
            g = Expander(prog).expand(n)
            for x in g.nodes:
                if x.kind == 'enter' and x.a[0] in encs and len(x.a) > 1 and \
                        x.a[1].k == 'ld' and x.a[1].a[0].k == 'fld' and \
                        x.a[1].a[0].a[1:] == tf:
                    e, m, d, _ = encs[x.a[0]]
                    return e, m, d
    return None


_ex = {}


def exported(prog, slots, vals):
    """type names a table's json export writes under the given field values"""
    fn = next((f for k, f in slots.items() if k.endswith('_json_export')),
              None)
    if fn is None:
        return set()
    key = (fn, tuple(sorted(vals.items())))
    if key not in _ex:
        if fn not in _ex:
            _ex[fn] = Expander(prog).expand(fn)
        L = Live(_ex[fn], fieldhook(vals))
        out = set()
        for n in L.nodes:
            if n.kind == 'call' and n.a[0] in ('cJSON_AddStringToObject',
                                               'cJSON_CreateString'):
                if len(n.a) > 3 and L.ev(n.a[2]) == 'type':
                    for t in L.leaves(n.a[3]):
                        v = L.ev(t)
                        if isinstance(v, str):
                            out.add(v)
        _ex[key] = out
    return _ex[key]


def chooses(prog, sets, f):
    """kinds of table set by f or a function it calls"""
    seen, st, out = set(), [f], set()
    while st:
        x = st.pop()
        if x in seen or x not in prog.funcs:
            continue
        seen.add(x)
        out |= sets.get(x, set())
        st += names.callees(prog.funcs[x])
    return out


def builders(prog, sets):
    """externally visible functions that choose the tables of an object they
    are given and then use them"""
    reach = {}
    names_ = [n for n, f in prog.funcs.items() if names.own(f)]
    cg = {n: names.callees(prog.funcs[n]) for n in names_}
    out = []
    for n in sorted(names_):
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            if x in seen or x not in cg:
                continue
            seen.add(x)
            st += cg[x]
        s = set()
        for x in seen & set(sets):
            s |= sets[x]
        if {'CondVtbl', 'ActVtbl', 'PredVtbl'} <= s and len(seen) < 400:
            out.append(n)
    # the innermost ones: not merely calling another builder
    inner = [n for n in out if not (cg[n] & set(out))]
    # plus builders that call builders but pass on their own object
    return inner + [n for n in out if n not in inner and
                    prog.funcs[n].file == prog.funcs[inner[0]].file] \
        if inner else []


def tables_used(g, L, o, want, vt):
    """calls through a table of object o that do not use the expected table"""
    SL = {'CondVtbl': 'cond_vptr', 'ActVtbl': 'act_vptr'}
    bad = set()

    def tr(n, s):
        if n.kind == 'store' and n.a[0].k == 'fld' and n.a[0].a[0] is o and \
                n.a[0].a[2] in SL.values():
            s = dict(s)
            v = L.ev(n.a[1]) if n.a[1].k != 'g' else n.a[1].a[0]
            s[n.a[0].a[2]] = frozenset([v if v is not None else '?'])
        elif n.kind == 'vcall' and '.' in n.a[0]:
            st = n.a[0].split('.')[0]
            if st in SL and o in n.a[1:3]:
                for v in s.get(SL[st], ('nothing',)):
                    if v != want.get(st):
                        bad.add("%s is called through %s instead of %s at %s"
                                % (n.a[0].split('_impl_')[1], v,
                                   want.get(st), n.loc))
        elif n is g.exit:
            for st, mem in SL.items():
                for v in s.get(mem, ('nothing',)):
                    if v != want.get(st):
                        bad.add("the %s is left as %s instead of %s" %
                                (mem, v, want.get(st)))
        return s

    def join(a, b):
        return {k: a.get(k, frozenset(['nothing'])) |
                b.get(k, frozenset(['nothing'])) for k in set(a) | set(b)}

    def edge(n, s, c, st):
        for i, (q, cd) in enumerate(n.succ):
            if q is s and cd is c:
                return st if (n, i) in L.edges else None
        return None
    forward(g, {}, tr, join, edge)
    return bad
