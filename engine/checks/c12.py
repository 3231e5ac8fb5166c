"""C12: predicting, scoring and exporting do not change what was learned."""
from pop import *
from absint import Live, Sym
from checks.c09 import internal
import ir

RULE = ("effect analysis: with the exploration flag cleared no path of "
        "prediction or scoring reaches an update, mutation or crossover, "
        "stores to a learned member or draws random numbers, and with a given "
        "cover value none touches the population; matching and computing "
        "write no member that learning or evolution writes; observers write "
        "only what they created")

LEARN = ('update', 'mutate', 'crossover')
EVAL = {'CondVtbl': ('match',), 'ActVtbl': ('compute',),
        'PredVtbl': ('compute',), 'LayerVtbl': ('forward', 'output')}
OBSERVE = ('save', 'json_export', 'print', 'size', 'general', 'output',
           'max_payoff', 'multistep', 'is_done')
ROOTS = ('xcs_supervised_predict', 'xcs_supervised_score',
         'xcs_supervised_score_n')
STAT = ('mset_size', 'aset_size', 'mfrac')


def member(a):
    """(struct, field, through a pointer member) that an address is part of"""
    buf = False
    while True:
        if a.k in ('idx', 'ld', 'cast'):
            a = a.a[-1] if a.k == 'cast' else a.a[0]
            buf = True
        elif a.k == 'fld':
            return a.a[1], a.a[2]
        else:
            return None


def base(a):
    while a.k in ('idx', 'fld', 'ld'):
        a = a.a[0]
    return a


WRITERS = {'memset': 1, 'memcpy': 1, 'memmove': 1, 'fread': 1, 'qsort': 1}


def written(n):
    """addresses written by a node"""
    if n.kind in ('store', 'atomic'):
        return [n.a[0]]
    if n.kind == 'call':
        c = n.a[0]
        if c.startswith('llvm.mem'):
            c = c.split('.')[1]
        if c in WRITERS and len(n.a) > 1:
            return [mk('idx', n.a[1], C(0))]
        if c in ('free', 'realloc'):
            return [mk('idx', n.a[1], C(0))]
    return []


def created(g, a, seen=None):
    """storage created in this operation (or handed out by a library)"""
    if seen is None:
        seen = set()
    if a in seen:
        return True
    seen.add(a)
    b = base(a)
    if b.k == 'alloca':
        if deref(a, b):     # what the variable holds
            if not hasattr(g, 'held'):
                g.held = {}
                for n in g.nodes:
                    if n.kind == 'store':
                        r = root_alloca(n.a[0])
                        if r is not None:
                            g.held.setdefault(r, set()).add(n.a[1])
            return all(not ptrlike(v) or created(g, v, seen)
                       for v in g.held.get(b, ()))
        return True
    if b.k in ('call', 'null', 'callref'):
        return True
    if b.k == 'phi':
        info = g.phi.get(b.a[0]) or {}
        inc = info.get('inc')
        return bool(inc) and all(created(g, v, seen) for v, _ in inc)
    if b.k == 'sel':
        return created(g, b.a[1], seen) and created(g, b.a[2], seen)
    return False


def ptrlike(v):
    return v.k not in ('c', 'fc', 'op', 'cmp', 'cast')


def deref(a, b):
    """a dereferences a pointer held in b"""
    while a is not b:
        if a.k == 'ld':
            return True
        a = a.a[0]
    return False


def root_alloca(a):
    while a.k in ('idx', 'fld'):
        a = a.a[0]
    return a if a.k == 'alloca' else None


def run(R):
    prog = ir.load()
    vt = vtables(prog)
    for r in ROOTS:
        if r not in prog.funcs:
            raise ir.AnalysisError("function %s not found" % r)
    graphs = {}

    def graph(f):
        if f not in graphs:
            graphs[f] = Expander(prog, vload=vload).expand(f)
        return graphs[f]
    # what learning and evolution write
    learned = {}
    for v, (ty, slots) in vt.items():
        s = learned.setdefault(v, set())
        for nm, f in slots.items():
            if not f or nm.split('_impl_')[1] not in LEARN:
                continue
            for n in graph(f).nodes:
                if n.kind != 'store':
                    continue
                val = n.a[1]
                if val.k == 'call' and val.a[1] in ('malloc', 'calloc',
                                                    'realloc'):
                    continue        # storage, not content
                if val.k in ('c', 'fc') and not val.a[0]:
                    continue        # cleared
                if n.a[0].k == 'fld' and val.k == 'ld' and \
                        val.a[0].k == 'fld' and \
                        val.a[0].a[1:] == n.a[0].a[1:]:
                    continue        # pointer taken over from a sub-layer
                m = member(n.a[0])
                if m:
                    s.add(m)
    layer = set()
    for v, (ty, _) in vt.items():
        if ty == 'LayerVtbl':
            layer |= learned[v]
    layer = {m for m in layer if m[0] == 'Layer'}
    R.require('learned members', len(set().union(*learned.values())), 30)
    for f in ('rand_uniform', 'rand_uniform_int', 'rand_normal'):
        if f not in prog.funcs or not any(draws(n) for n in graph(f).nodes):
            raise ir.AnalysisError("random numbers of %s not recognised" % f)
    # evaluation slots
    ns = 0
    for v, (ty, slots) in sorted(vt.items()):
        for nm, f in sorted(slots.items()):
            kind = nm.split('_impl_')[1]
            if not f or kind not in EVAL.get(ty, ()):
                continue
            ns += 1
            g = graph(f)
            forb = (learned[v] | layer) - {m for m in learned[v]
                                           if m[0].startswith('DSFMT')}
            bad = []
            for n in g.nodes:
                for a in written(n):
                    m = member(a)
                    if m in forb and not created(g, a):
                        bad.append((n, m))
            R.obligation("%s writes nothing learned" % f, not bad,
                         "%s (%s) changes %s, which learning maintains (%s)" %
                         (f, prog.funcs[f].where(), '.'.join(bad[0][1])
                          if bad else '', bad[0][0].loc if bad else ''),
                         key=f + ':writes')
            # not exploring: no learning steps, no random numbers
            L = Live(g, off)
            for n in sorted(L.nodes, key=lambda q: q.i if hasattr(q, 'i')
                            else 0):
                if n.kind == 'vcall' and n.a[0].split('_impl_')[-1] in LEARN:
                    R.obligation("%s: %s" % (f, n.a[0]), False,
                                 "%s calls %s (%s)" % (f, n.a[0], n.loc),
                                 key='%s:%s' % (f, n.a[0]))
                if n.kind == 'store' and n.a[0].k == 'fld' and \
                        n.a[0].a[1:] == ('Net', 'train'):
                    R.obligation("%s: train" % f, L.ev(n.a[1]) == 0,
                                 "%s (%s) propagates in training mode although "
                                 "the system is not exploring (%s)" %
                                 (f, prog.funcs[f].where(), n.loc),
                                 key=f + ':train')
            draw = [n for n in L.nodes if draws(n)]
            R.obligation("%s: deterministic" % f, not draw,
                         "%s (%s) draws random numbers although it is not "
                         "training (%s)" % (f, prog.funcs[f].where(),
                                            draw[0].loc if draw else ''),
                         key=f + ':random')
    R.require('evaluation operations', ns, 25)
    # whole operations
    saved = set()
    for f in ('xcsf_save', 'param_save'):
        if f not in prog.funcs:
            raise ir.AnalysisError("function %s not found" % f)
        for n in graph(f).nodes:
            if n.kind == 'call' and n.a[0] == 'fwrite':
                a = n.a[1]
                if a.k == 'fld' and a.a[1] in ('XCSF', 'ArgsEA'):
                    saved.add(a.a[1:])
                elif a.k == 'alloca':
                    pass
    saved -= {('XCSF', s) for s in STAT}
    R.require('stored members of the system', len(saved), 15)
    CL = ('fit', 'err', 'num', 'exp', 'size', 'time')
    for r in ROOTS:
        g = graph(r)
        f = prog.funcs[r]
        expl = explore_cleared(g)
        R.obligation("%s clears the exploration flag" % r, expl,
                     "%s (%s): a trial can run with the exploration flag set" %
                     (r, f.where()), key=r + ':explore')
        if not expl:
            continue
        for cov in (False, True):
            carg = [mk('arg', i, a) for i, a in enumerate(f.args)
                    if a == 'cover']
            if not carg:
                carg = [mk('arg', len(f.args) - 1, f.args[-1])]
            S = Sym('cover')

            def hook(L, t):
                x = off(L, t)
                if x is not None:
                    return x
                if cov and t is carg[0]:
                    return S
                return None
            L = Live(g, hook)
            what = '%s%s' % (r, ' with cover' if cov else '')
            bad = {}
            for n in L.nodes:
                if n.kind == 'vcall' and n.a[0].split('_impl_')[-1] in LEARN \
                        + (('cover', 'init') if cov else ()):
                    bad.setdefault('learn', "calls " + n.a[0] + ' (%s)' %
                                   n.loc)
                for a in written(n):
                    m = member(a)
                    if m is None or created(g, a):
                        continue
                    if m[0] == 'Cl' and m[1] in CL and n.kind == 'store':
                        if cov or not fresh(base(a)):
                            # deletion after covering changes numerosities
                            if not cov and m[1] == 'num':
                                continue
                            bad.setdefault('member', "changes %s of a "
                                           "classifier (%s)" % (m[1], n.loc))
                    if m in saved and not (
                            m[0] == 'XCSF' and m[1] == 'explore'):
                        bad.setdefault('system', "changes %s (%s)" %
                                       ('.'.join(m), n.loc))
                    if cov and touches_pset(a):
                        bad.setdefault('population', "changes the population "
                                       "(%s)" % n.loc)
                if n.kind == 'call' and n.a[0] in PRIMS and cov and \
                        'pset' in [setname(x) for x in n.a[1:]
                                   if isinstance(x, T)]:
                    bad.setdefault('population', "changes the population (%s)"
                                   % n.loc)
            if cov and r != 'xcs_supervised_score_n':
                dr = [n for n in L.nodes if draws(n)]
                if dr:
                    bad['random'] = "draws random numbers (%s)" % dr[0].loc
            for k in ('learn', 'member', 'system', 'population', 'random'):
                R.obligation("%s: %s" % (what, k), k not in bad,
                             "%s (%s) %s" % (what, f.where(), bad.get(k)),
                             key='%s:%s' % (what, k))
    # observers
    sd = {}

    def slot_draws(slot):
        if slot not in sd:
            st, nm = slot.split('.')
            sd[slot] = any(draws(n) for ty, slots in vt.values()
                           if ty == st and slots.get(nm)
                           for n in graph(slots[nm]).nodes)
        return sd[slot]
    obs = set()
    for v, (ty, slots) in vt.items():
        for nm, f in slots.items():
            if f and nm.split('_impl_')[1] in OBSERVE:
                obs.add(f)
    for n, f in prog.funcs.items():
        if names.own(f) and not internal(f) and const_only(prog, f):
            obs.add(n)
    nb = 0
    for f in sorted(obs):
        g = graph(f)
        bad = []
        for n in g.nodes:
            for a in written(n):
                m = member(a)
                if m is None or created(g, a) or m[0].startswith('DSFMT'):
                    continue
                if m[0] in ('cJSON', 'GPTree') and m[1] in ('pos', 'next',
                                                            'prev'):
                    continue        # cursor of a traversal
                if m[0] == 'ArgsLayer' and m[1] in (
                        'height', 'width', 'channels', 'n_inputs', 'n_init'):
                    continue        # completed as on every use
                bad.append((n, m))
        nb += 1
        R.obligation("%s observes" % f, not bad,
                     "%s (%s) changes %s although it only reports (%s)" %
                     (f, prog.funcs[f].where(), '.'.join(bad[0][1]) if bad
                      else '', bad[0][0].loc if bad else ''),
                     key=f + ':observer')
        dr = [n for n in g.nodes if draws(n) or n.kind == 'vcall' and
              n.a[0].split('_impl_')[-1] not in OBSERVE and slot_draws(n.a[0])]
        R.obligation("%s draws nothing" % f, not dr,
                     "%s (%s) draws random numbers although it only reports "
                     "(%s)" % (f, prog.funcs[f].where(),
                               dr[0].loc if dr else ''),
                     key=f + ':observer-random')
    R.require('observers', nb, 60)


PAT = ('_save', '_json_export', '_print', '_size', '_general', 'clset_mean_',
       'clset_total_', '_as_string', '_return_json', 'pa_best_val', 'pa_val',
       'cl_acc', 'cl_del_vote', 'cl_subsumer', 'cl_mfrac', 'xcsf_print')


def const_only(prog, f):
    n = f.name
    return any(n.endswith(p) or p in n and not p.startswith('_')
               for p in PAT) and '_param_set_' not in n and \
        not n.startswith(('cJSON', 'param_set'))


def off(L, t):
    """exploration and training flags are clear"""
    if t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[1:] in (
            ('XCSF', 'explore'), ('Net', 'train')):
        return 0
    return None


def explore_cleared(g):
    """the flag is 0 at every read"""
    def isflag(a):
        return a.k == 'fld' and a.a[1:] == ('XCSF', 'explore')
    reads = [n for n in g.nodes if n.kind == 'load' and isflag(n.a[0])]

    def tr(n, s):
        if n.kind == 'store' and isflag(n.a[0]):
            v = n.a[1]
            return v.k == 'c' and v.a[0] == 0 or v.k == 'cast' and \
                v.a[1].k == 'c' and v.a[1].a[0] == 0
        return s
    st = forward(g, False, tr, lambda a, b: a and b, None)
    return bool(reads) and all(st.get(n) for n in reads if n in st)


def touches_pset(a):
    while a.k in ('idx', 'fld', 'ld'):
        if a.k == 'fld' and a.a[1] == 'XCSF' and a.a[2] == 'pset':
            return True
        a = a.a[0]
    return False


def draws(n):
    """the node advances the random number generator"""
    if n.kind == 'call' and 'dsfmt' in n.a[0].lower():
        return True
    if n.kind == 'store':
        m = member(n.a[0])
        return bool(m) and m[0].startswith('DSFMT')
    return False
