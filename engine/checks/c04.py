"""Every owned allocation is released exactly once and never used after."""
from typestate import *
from effects import star, STAR
from own import Own, OPS, owning

RULE = ("for every component (and classifier, system, parameters): each heap "
        "block that init, load or copy attaches to the object is released on "
        "every path through the object's free routine; in no function is a "
        "block released twice or used after release on some path; an operation "
        "that attaches a fresh block to an existing object first releases the "
        "block it replaces")


def norm(t):
    """list elements of a network have one name, whichever end or link"""
    if t.k == 'fld' and t.a[1] == 'Llist' and t.a[2] in ('next', 'prev'):
        x = norm(t.a[0])
        return x.a[0] if x.k == 'ld' else x
    if t.k == 'fld' and t.a[1] == 'ArgsLayer' and t.a[2] == 'next':
        x = norm(t.a[0])
        return x.a[0] if x.k == 'ld' else x
    if t.k == 'fld' and t.a[1] == 'Net' and t.a[2] == 'tail':
        return mk('fld', norm(t.a[0]), 'Net', 'head')
    na = tuple(norm(c) if isinstance(c, T) else c for c in t.a)
    return t if na == t.a else mk(t.k, *na)


def owned(g, cn, root):
    out = {}
    for n in g.nodes:
        if n.kind in ('call', 'vcall') and n.res is not None and (
                is_alloc(n.res) or n.a[0].endswith('layer_impl_copy')):
            for h in cn.homes.get(n.res, []):
                if h.k == 'alloca':
                    continue
                a = norm(star(cn(h)))
                if contains(a, root):
                    out.setdefault(mk('ld', a), n)
    return out


def frees(g, cn):
    gen = {}
    for n in g.nodes:
        if n.kind == 'call' and n.a[0] == 'free':
            gen.setdefault(n, set()).add(norm(star(cn(n.a[1]))))
        elif n.kind == 'vcall' and n.a[0].endswith('_impl_free'):
            st, _ = slot_kind(n.a[0])
            o = n.a[1] if st == 'LayerVtbl' else n.a[2]
            gen.setdefault(n, set()).add(mk('vfree', st, norm(star(cn(o)))))
    return gen


def must_free(g, cn):
    """values released on every path to the exit; a release guarded only by a
    non-null test of the same pointer counts; loop bodies count"""
    gen = frees(g, cn)
    live = reach_bwd([g.exit])
    ls = sorted(loops(g), key=lambda l: -l.depth)
    hoist = {}
    for L in ls:
        val = {L.header: set(gen.get(L.header, ()))}
        order = [n for n in rpo(g) if n in L.nodes]
        ch = True
        while ch:
            ch = False
            for n in order:
                if n is L.header:
                    continue
                ins = None
                for p, cd in n.pred:
                    if p in val and p in L.nodes:
                        v = val[p] | nullfree(cd, cn)
                        ins = v if ins is None else ins & v
                if ins is None:
                    continue
                o = ins | gen.get(n, set()) | hoist.get(n, set())
                if val.get(n) != o:
                    val[n] = o
                    ch = True
        res = None
        for b in L.nodes:
            if b in val and b in live and \
                    any(s is L.header for s, _ in b.succ):
                res = set(val[b]) if res is None else res & val[b]
        if res:
            hoist.setdefault(L.header, set()).update(res)

    def tr(n, s):
        if n not in live:
            return None
        return s | gen.get(n, set()) | hoist.get(n, set())

    def edge(n, t, cd, s):
        return s | nullfree(cd, cn)
    st = forward(g, frozenset(), lambda n, s: None if tr(n, s) is None
                 else frozenset(tr(n, s)), lambda a, b: a & b,
                 lambda n, t, cd, s: frozenset(edge(n, t, cd, s)))
    return st[g.exit] or frozenset()


def nullfree(cd, cn):
    """on the edge where a pointer is null there is nothing to release"""
    if cd is None:
        return set()
    c, pol = cd
    if c.k == 'cmp' and c.a[0] in ('eq', 'ne') and c.a[2] is NULL:
        if (c.a[0] == 'eq') == pol:
            return {norm(star(cn(c.a[1])))}
    return set()


def pair(R, prog, tag, cname, fname, croot, froot, skip=lambda a: False):
    gc = Expander(prog).expand(cname)
    cc = Canon(gc)
    gf = Expander(prog).expand(fname)
    cf = Canon(gf)
    own = owned(gc, cc, croot)
    fr = must_free(gf, cf)
    n = 0
    for t, nd in sorted(own.items(), key=lambda kv: str(kv[0])):
        if skip(t):
            continue
        n += 1
        tt = subst(t, {croot: froot})
        ok = tt in fr
        why = "it is never released by %s on some path" % fname
        R.obligation("%s/%s: %s released by %s" % (tag, cname, tt, fname), ok,
                     "%s: %s is allocated by %s (%s) but %s" % (
                         tag, tt, cname, nd.loc, why),
                     key="%s:%s:%s:leak" % (tag, cname, tt))
        # an owned layer is also told to release its own members
        lf = t.a[0]
        if lf.k == 'fld' and ((lf.a[1] == 'Llist' and lf.a[2] == 'layer') or
                              layerptr(prog, lf)):
            R.obligation("%s/%s: members of %s released" % (tag, cname, tt),
                         mk('vfree', 'LayerVtbl', tt) in fr,
                         "%s: %s releases %s without releasing its members" % (
                             tag, fname, tt),
                         key="%s:%s:%s:members" % (tag, cname, tt))
    return n


def only_owned(R, prog, tag, cname, fname, root):
    """a destructor releases nothing that belongs to another object"""
    gc = Expander(prog).expand(cname)
    own = set(owned(gc, Canon(gc), root))
    gf = Expander(prog).expand(fname)
    fr = set().union(*frees(gf, Canon(gf)).values(), set())
    for t in sorted(fr, key=str):
        if t.k != 'ld' or not contains(t, root):
            continue
        R.obligation("%s: %s is its own" % (fname, t), t in own,
                     "%s: %s releases %s, which %s does not allocate" % (
                         tag, fname, t, cname),
                     key="%s:%s:foreign" % (tag, t))


def layerptr(prog, lf):
    ty = prog.field_type(lf.a[1], lf.a[2])
    return isinstance(ty, tuple) and ty[0] == 'ptr' and \
        ty[1] in ('Layer', ('struct', 'Layer'))


DEST = ('xcsf_free', 'param_free', 'pa_free', 'clset_free', 'clset_kill',
        'cl_free', 'neural_free', 'graph_free', 'tree_free', 'layer_args_free',
        'tree_args_free', 'xcs_rl_end_trial', 'cond_param_free',
        'action_param_free', 'pred_param_free', 'env_free')


def members(prog, init):
    """members of its first argument that a constructor allocates"""
    g = Expander(prog).expand(init)
    cn = Canon(g)
    out = set()
    for n in g.nodes:
        if n.kind == 'call' and n.res is not None and is_alloc(n.res):
            for h in cn.homes.get(n.res, []):
                if h.k == 'fld' and h.a[1] == 'Layer':
                    out.add(h.a[2])
    return out


def run(R):
    prog = ir.load()
    n = 0
    nv = 0
    for vt, (st, slots) in sorted(vtables(prog).items()):
        ks = {k.split('_impl_')[1]: v for k, v in slots.items()}
        if not ks.get('free') or not ks.get('init'):
            continue
        nv += 1
        layer = st == 'LayerVtbl'
        root = mk('arg', 0 if layer else 1)
        tag = vt.split('@')[0]
        only_owned(R, prog, tag, ks['init'], ks['free'], root)
        for c in ('init', 'load', 'copy'):
            if not ks.get(c):
                continue
            croot = root
            if layer and c == 'copy':
                g = Expander(prog).expand(ks[c])
                croot = Canon(g)(g.ret)
            n += pair(R, prog, tag, ks[c], ks['free'], croot, root)
    for c in ('cl_init', 'cl_load', 'cl_init_copy'):
        n += pair(R, prog, 'classifier', c, 'cl_free', mk('arg', 1),
                  mk('arg', 1))
    # releasing a classifier releases its three components and the classifier
    g = Expander(prog).expand('cl_free')
    fr = must_free(g, Canon(g))
    c = mk('arg', 1)
    for st in ('CondVtbl', 'ActVtbl', 'PredVtbl'):
        R.obligation('cl_free releases %s' % st, mk('vfree', st, c) in fr,
                     "cl_free does not release the %s component on every path"
                     % st, key='classifier:' + st)
    R.obligation('cl_free releases the classifier', c in fr,
                 "cl_free does not release the classifier itself")
    x = mk('arg', 0)
    n += pair(R, prog, 'parameters', 'param_init', 'param_free', x, x)
    n += pair(R, prog, 'system', 'xcsf_init', 'xcsf_free', x, x,
              lambda t: any(s.k == 'fld' and s.a[2] == 'kset'
                            for s in subterms(t)))
    n += pair(R, prog, 'system', 'xcsf_store_pset', 'xcsf_free', x, x)
    # pair-wise: the reinforcement-learning trial
    if 'xcs_rl_init_trial' in prog.funcs and 'xcs_rl_end_trial' in prog.funcs:
        n += pair(R, prog, 'trial', 'xcs_rl_init_trial', 'xcs_rl_end_trial',
                  x, x)
    # typestate
    seen = set()
    nr = 0
    rel = 0
    for f in roots(prog):
        g = Expander(prog).expand(f)
        nr += 1
        rel += sum(1 for m in g.nodes if m.kind == 'call' and
                   m.a[0] in RELEASE)
        for kind, nd, t, fn in freed_analysis(g):
            k = "%s:%s:%s" % (kind, nd.fn.name, t)
            if k in seen:
                continue
            seen.add(k)
            R.obligation(k, False, "%s: %s at %s (released at %s), reached "
                         "from %s" % (kind, t, nd.loc, fn.loc, f), key=k)
    R.obligation("no block released twice or used after release in %d entry "
                 "points" % nr, not seen, key='typestate')
    # ownership rules of operations on existing objects
    own = owning(prog)
    seen2 = set()
    nop = nob = 0

    def rules(f, only=None, dest=False):
        nonlocal nop, nob
        o = Own(prog, f, own, only)
        if o.g.exit is None:
            return
        nop += 1
        if not dest:
            o.overwritten()
            o.duplicated()
            o.dangling()
            o.handed()
        o.bypassed()
        o.heads()
        o.cleared()
        nob += o.n
        for kind, key, msg in o.out:
            if key not in seen2:
                seen2.add(key)
                R.obligation(key, False, msg, key=key)
    for vt, (st, slots) in sorted(vtables(prog).items()):
        ks = {k.split('_impl_')[1]: v for k, v in slots.items()}
        only = None
        if st == 'LayerVtbl' and ks.get('init'):
            only = members(prog, ks['init'])
        for k, v in sorted(ks.items()):
            if v and k not in ('init', 'load', 'copy'):
                rules(v, only, k == 'free')
    for f in OPS:
        if f in prog.funcs:
            rules(f)
    for f in DEST:
        if f in prog.funcs:
            rules(f, None, True)
    R.obligation("%d overwrites, moves, unlinks and releases in %d operations"
                 % (nob, nop), not seen2, key='ownership')
    R.require('ownership operations', nop, 300)
    R.require('ownership obligations', nob, 300)
    R.require('owned blocks', n, 300)
    R.require('components', nv, 20)
    R.require('entry points analysed', nr, 200)
    R.require('release sites', rel, 200)
    R.assume = ["aliases are tracked by access path; a block reachable under "
                "two unrelated paths is treated as two blocks"]

