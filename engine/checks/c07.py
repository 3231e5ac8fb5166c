"""C07: the JSON parameters a system exports are the ones it accepts."""
from json_model import *
import ir, names

RULE = ("for every key path that param_json_export can write, constant "
        "propagation of that key (and the exporting type) through "
        "param_json_import: exactly the exported member receives exactly that "
        "value; other kinds of value, longer or shorter keys and unknown keys "
        "reach neither a member nor the next item; the members written per "
        "type are those accepted per type; every stored parameter is among "
        "them")

# accepted and ignored on import
IGNORED = {('version',): 'informative',
           ('*', 'args', 'layer_%d', 'n_inputs'): 'follows from the shapes'}
# run-time statistics that are saved but are not parameters
STATE = {'XCSF.time', 'XCSF.error', 'XCSF.msetsize', 'XCSF.asetsize',
         'XCSF.mset_size', 'XCSF.aset_size', 'XCSF.mfrac',
         # mode of the current trial
         'XCSF.explore',
         # follow from x_dim; drawn anew from min_constant/max_constant
         'ArgsDGP.n_inputs', 'ArgsGPTree.n_inputs', 'ArgsGPTree.constants'}

FAM = {'condition': ('ArgsCond', 'type'), 'action': ('ArgsAct', 'type'),
       'prediction': ('ArgsPred', 'type')}


def ignored(path):
    for k in IGNORED:
        if len(k) == len(path) and all(a in ('*', b)
                                       for a, b in zip(k, path)):
            return True
    return False


class Where:
    """names members independently of how the object is reached"""

    def __init__(self, g):
        self.g = g
        self.homes = {}
        for n in g.nodes:
            if n.kind == 'store':
                v = strip(n.a[1])
                if v.k in ('call', 'phi'):
                    self.homes.setdefault(v, []).append(n.a[0])

    def root(self, b, seen=()):
        """chain of members through which an object can be reached"""
        if b.k == 'arg' or b in seen:
            return ()
        seen = seen + (b,)
        best = None
        cands = []
        if b.k == 'phi':
            cands = [x for x in leaves(self.g, b) if x is not b]
        for a in self.homes.get(b, ()):
            cands.append(a)
        for x in cands:
            bb, mp = memberpath(x)
            r = self.root(bb, seen)
            if r is None:
                continue
            full = tuple(m for m in r + mp if not m.endswith('.next'))
            if full and (best is None or len(full) < len(best)):
                best = full
        return best

    def member(self, a):
        b, mp = memberpath(a)
        r = self.root(b)
        if r is None:
            r = ('?',)
        return r + tuple(m for m in mp if not m.endswith('.next'))


def run(R):
    prog = ir.load()
    tabs = names.tables(prog)
    dec = {t[0]: t[2] for t in tabs}
    op = {t[0] for t in tabs} | {t[2] for t in tabs if t[2]}
    ge = Expander(prog, opaque=op).expand('param_json_export')
    gi = Expander(prog, opaque=op).expand('param_json_import')
    W = Writer(ge)
    items = W.items()
    R.require('exported items', len({i[0] for i in items}), 100)
    we, wi = Where(ge), Where(gi)
    fams = {}
    for k, tf in FAM.items():
        for p, kind, v, ns in items:
            if p == (k, 'type') and v.k == 'call' and v.a[1] in dec:
                fams[k] = [t for t in tabs if t[0] == v.a[1]][0]
    R.require('type dispatched sections', len(fams), 3)

    def exported(v):
        """member an exported value comes from, and its translator"""
        v = strip(v)
        if v.k == 'call' and v.a[1] in dec:
            return we.member(strip(v.a[2])), v.a[1]
        if v.k == 'ld':
            return we.member(v), None
        return None, None

    done = set()
    alltypes = {k: sorted(f[1]) for k, f in fams.items()}
    exp_members = {}
    live_exp = {}
    for k, cs in alltypes.items():
        for c in cs:
            L = Live(ge, lambda L, t, tf=FAM[k], c=c: c if t.k == 'ld' and
                     t.a[0].k == 'fld' and t.a[0].a[1:] == tf else None)
            live_exp[k, c] = L
    for path, kind, v, ns in items:
        if '?' in path:
            R.obligation("export %s has a definite key" % '/'.join(path),
                         False, "export writes an item whose key is not "
                         "determined (%s)" % ns[-1].loc)
            continue
        m, enc = exported(v)
        sec = path[0] if path[0] in fams else None
        cs = [None]
        if sec:
            cs = [c for c in alltypes[sec]
                  if all(n in live_exp[sec, c].nodes for n in ns)]
        for c in cs:
            if sec and len(path) >= 3 and m:
                exp_members.setdefault((sec, c), set()).add(m)
            elif m:
                exp_members.setdefault((None, None), set()).add(m)
            tag = '/'.join(path) + ('' if c is None or path[1:] == ('type',)
                                    else ' (%s)' % fams[sec][1][c])
            if tag in done:
                continue
            done.add(tag)
            mem = {FAM[sec]: c} if sec else {}
            if ignored(path):
                rd = Reader(gi, path, kind, mem)
                R.obligation(tag + ": accepted", accepted(rd),
                             "param_json_import does not accept the key '%s' "
                             "that param_json_export writes (%s)" %
                             (tag, ns[-1].loc), key=tag + ':rejected')
                continue
            if m is None:
                R.obligation(tag + ": exports a member", False,
                             "param_json_export writes %s under '%s', which "
                             "is no parameter (%s)" % (v, tag, ns[-1].loc))
                continue
            rd = Reader(gi, path, kind, mem)
            vals = {}
            for n, q in rd.values():
                a = n.a[0] if n.kind == 'store' else n.a[1]
                val = n.a[1] if n.kind == 'store' else n.a[2]
                if n.kind == 'store' and contains_call(n.a[1], 'malloc'):
                    continue
                vals.setdefault(wi.member(a), []).append((n, q, val))
            R.obligation(
                tag + ": read into the exported member", set(vals) == {m},
                "'%s' is exported from %s (%s) but importing it sets %s" %
                (tag, show(m), ns[-1].loc,
                 ', '.join(show(x) for x in sorted(vals)) or 'nothing'),
                key=tag + ':member')
            if m in vals:
                for n, q, val in vals[m]:
                    why = faithful(prog, gi, n, q, val, kind, enc, dec)
                    R.obligation(
                        tag + ": value kept", why is None,
                        "importing '%s' into %s: %s (%s)" %
                        (tag, show(m), why, n.loc), key=tag + ':value')
            R.obligation(tag + ": accepted", accepted(rd),
                         "param_json_import does not accept the key '%s' that "
                         "param_json_export writes" % tag,
                         key=tag + ':rejected')
            # values of another kind
            rd = Reader(gi, path, 'other', mem)
            R.obligation(tag + ": other kinds of value rejected",
                         not rd.values() and not goes_on(rd),
                         "a value of another kind than %s is accepted under "
                         "'%s'" % (kind, tag), key=tag + ':kind')
    R.count('exported items by type', len(done))
    # unknown, longer and shorter keys
    known = {}
    for path, kind, v, ns in items:
        known.setdefault(path[:-1], set()).add(path[-1])
        for i in range(1, len(path)):
            known.setdefault(path[:i - 1], set()).add(path[i - 1])
    nk = 0
    for pre, keys in sorted(known.items()):
        if any(k.startswith('layer_') for k in keys) and len(keys) == 1:
            continue
        for c in (alltypes[pre[0]] if pre and pre[0] in fams else [None]):
            if len(pre) == 1 and pre[0] in fams:
                continue
            mem = {FAM[pre[0]]: c} if c is not None else {}
            if c is not None and len(pre) == 2 and not any(
                    p[:2] == pre and all(n in live_exp[pre[0], c].nodes
                                         for n in ns) and len(p) == 3
                    for p, _, _, ns in items):
                continue
            if c is not None and len(pre) == 3 and not any(
                    p[:3] == pre and all(n in live_exp[pre[0], c].nodes
                                         for n in ns)
                    for p, _, _, ns in items):
                continue
            cand = [Sym('unknown key')]
            if len(pre) != 2 or c is not None:
                for k in sorted(keys):
                    for x in (k + 'x', k[:-1]):
                        if x and x not in keys:
                            cand.append(x)
            for x in cand:
                nk += 1
                rd = Reader(gi, pre + (x,), None, mem)
                tag = '/'.join(pre + (str(x),))
                R.obligation("%s rejected" % tag,
                             not rd.values() and not goes_on(rd),
                             "param_json_import accepts the unknown key '%s'"
                             % tag, key='unknown:' + tag)
    R.count('unknown keys', nk)
    # what is accepted per type is exported for that type
    for (sec, c), L in sorted(live_exp.items()):
        rd = Reader(gi, (sec, 'args'), None, {FAM[sec]: c})
        acc = set()
        for n in rd.live.nodes:
            if n.kind == 'store' and any(istoken(q)
                                         for q in subterms(n.a[1])):
                ws = [rd.where(tokenof(q)) for q in subterms(n.a[1])
                      if istoken(q)]
                if any(w and w[:2] == (sec, 'args') and len(w) > 2
                       for w in ws):
                    acc.add(wi.member(n.a[0]))
        ex = exp_members.get((sec, c), set())
        ex = {m for m in ex if m[-1] != 'ArgsLayer.n_inputs'}
        nm = fams[sec][1][c]
        R.obligation("%s %s: accepted = exported arguments (%d)" %
                     (sec, nm, len(ex)), acc == ex,
                     "%s type %s: accepted but not exported: %s; exported "
                     "but not accepted: %s" % (
                         sec, nm, [show(x) for x in sorted(acc - ex)],
                         [show(x) for x in sorted(ex - acc)]),
                     key="%s:%s:arguments" % (sec, nm))
    omitted(R, prog, ge, W, items, we, live_exp, alltypes, fams)
    layerlists(R, gi, wi)
    # stored parameters
    gs = Expander(prog).expand('param_save')
    ws = Where(gs)
    stored = set()
    for n in gs.nodes:
        if n.kind == 'call' and n.a[0] == 'fwrite':
            m = ws.member(n.a[1])
            if m and m[0] != '?' and not any(x == '[]' for x in m):
                stored.add(m)
    R.require('stored parameters', len(stored), 60)
    allm = set()
    for s in exp_members.values():
        allm |= s
    for m in sorted(stored):
        if m[-1] in STATE:
            continue
        R.obligation("stored parameter %s is exported" % show(m),
                     m in allm or m[-1] == 'ArgsLayer.n_inputs',
                     "the stored parameter %s is not exported as JSON" %
                     show(m), key=show(m) + ':unexported')


# a parameter that only matters under another setting need only be exported
# under that setting: {last key: {(struct, member): value}}
GATE = {'huber_delta': {('XCSF', 'LOSS_FUNC'): 'huber'},
        'gamma': {('XCSF', 'n_actions'): 2},
        'teletransportation': {('XCSF', 'n_actions'): 2},
        'p_explore': {('XCSF', 'n_actions'): 2},
        'select_size': {('ArgsEA', 'select_type'): 'tournament'},
        'population_file': {('XCSF', 'population_file'): Sym('name')}}
ARGGATE = {'eta': ('sgd_weights',), 'evolve_eta': ('sgd_weights',),
           'eta_min': ('sgd_weights', 'evolve_eta'),
           'momentum': ('sgd_weights',), 'decay': ('sgd_weights',),
           'n_max': ('evolve_neurons',),
           'max_neuron_grow': ('evolve_neurons',)}


def avoids(L, start, targets, exit_):
    """the exit is reached from start over live edges without any target"""
    seen = {start}
    st = [start]
    while st:
        n = st.pop()
        if n is exit_:
            return True
        if n in targets:
            continue
        for i, (s, _) in enumerate(n.succ):
            if (n, i) in L.edges and s not in seen:
                seen.add(s)
                st.append(s)
    return False


def omitted(R, prog, ge, W, items, we, live_exp, alltypes, fams):
    """a parameter is left out of the export only when it has no meaning"""
    tabs = {n: c for t in names.tables(prog) for c, n in t[1].items()
            if t[2]}
    byname = {}
    for t in names.tables(prog):
        for c, n in t[1].items():
            byname.setdefault(n, c)
    done = set()
    no = 0
    for path, kind, v, ns in items:
        if path in done or '?' in path or 'layer_%d' in path:
            continue
        done.add(path)
        mine = {n for p, _, _, q in items if p == path for n in q[-1:]}
        vals = {k: byname[x] if isinstance(x, str) else x
                for k, x in GATE.get(path[-1], {}).items()}
        if path[0] in fams:
            k = path[0]
            cs = [c for c in alltypes[k]
                  if mine & set(live_exp[k, c].nodes)]
            if k == 'action':
                vals[('XCSF', 'n_actions')] = 2
                vals[('ArgsCond', 'type')] = next(
                    c for c, n in fams['condition'][1].items()
                    if not n.startswith('rule_'))
            if path[-1] == 'eta_min':
                vals[('ArgsPred', 'evolve_eta')] = 1
        else:
            cs = [None]
        for c in cs:
            if c is not None:
                vals[FAM[path[0]]] = c
            L = Live(ge, hooked(vals))
            no += 1
            R.obligation("%s is always exported" % '/'.join(path),
                         not avoids(L, ge.entry, mine, ge.exit),
                         "param_json_export can return without '%s'%s" %
                         ('/'.join(path), '' if not vals else
                          ' although ' + ', '.join(
                              '%s is %s' % (k[1], x)
                              for k, x in sorted(vals.items()))),
                         key='/'.join(path) + ':omitted')
    # layers: every argument that the layer's construction reads
    if 'layer_args_json_export' not in prog.funcs:
        raise ir.AnalysisError("no layer_args_json_export function")
    gl = Expander(prog, opaque={t[0] for t in names.tables(prog)}).expand(
        'layer_args_json_export')
    wl = Writer(gl)
    for b, f in wl.fmt.items():
        args = wl.fmtargs.get(b, [])
        if not any('%d' in x for x in f):
            continue
        R.obligation("layers are exported under different keys",
                     all(any(q.k == 'phi' for t in a for q in subterms(t))
                         for a in args),
                     "layer_args_json_export writes every layer under the "
                     "same key", key='layers:key')
    lt = [t for t in names.tables(prog) if 'lstm' in t[1].values()][0][1]
    vt = vtables(prog)
    nu = 0
    for c, nm in sorted(lt.items()):
        used = layer_uses(prog, vt, c) - {'type', 'next', 'n_inputs'}
        for fld in sorted(used):
            vals = {('ArgsLayer', 'type'): c, ('Layer', 'type'): c,
                    ('ArgsLayer', fld): 1}
            for x in ARGGATE.get(fld, ()):
                vals[('ArgsLayer', x)] = 1
            L = Live(gl, hooked(vals))
            mine = {n for n, o, k, kind, v in wl.adds
                    if n in L.nodes and reads(v, fld)}
            starts = [n for n, o, k, kind, v in wl.adds
                      if k == 'type' and n in L.nodes]
            nu += 1
            R.obligation(
                "layer type %s: '%s' is exported" % (nm, fld),
                bool(starts) and not any(
                    avoids(L, s, mine, gl.exit) for s in starts),
                "layer_args_json_export can leave out '%s' of a layer of "
                "type %s, whose construction uses it" % (fld, nm),
                key="layer:%s:%s:omitted" % (nm, fld))
    R.require('layer arguments used', nu, 60)
    R.count('export conditions', no)


def layer_uses(prog, vt, c, seen=()):
    """arguments that constructing a layer of a type makes use of"""
    used = set()
    if c in seen:
        return used
    for vn in layer_table(prog, c):
        g = Expander(prog).expand(vt[vn][1].get('layer_impl_init'))
        copied, subs = set(), set()
        loads = {}
        for n in g.nodes:
            if n.kind == 'load' and n.a[0].k == 'fld' and \
                    n.a[0].a[1] == 'ArgsLayer' and n.a[0].a[0].k == 'arg':
                loads[n.res if n.res is not None else mk('ld', n.a[0])] = \
                    n.a[0].a[2]
            if n.kind == 'store' and n.a[0].k == 'fld' and \
                    n.a[0].a[1:] == ('ArgsLayer', 'type') and \
                    n.a[1].k == 'c':
                subs.add(n.a[1].a[0])
        direct = set()
        for n in g.nodes:
            ts = []
            if n.kind == 'store':
                if n.a[0].k == 'fld' and n.a[0].a[1] == 'ArgsLayer' and \
                        n.a[1] in loads and loads[n.a[1]] == n.a[0].a[2]:
                    copied.add(n.a[0].a[2])
                    continue
                ts = [n.a[1]]
            elif n.kind in ('call', 'vcall'):
                ts = list(n.a[1:])
            ts += [cd[0] for _, cd in n.succ if cd]
            for t in ts:
                for q in subterms(t):
                    if q in loads:
                        direct.add(loads[q])
        used |= direct
        for k in subs:
            used |= copied & layer_uses(prog, vt, k, seen + (c,))
    return used


def reads(v, fld):
    return any(q.k == 'ld' and q.a[0].k == 'fld' and
               q.a[0].a[1:] == ('ArgsLayer', fld) for q in subterms(v))


def layer_table(prog, c):
    """tables selected for a layer type"""
    out = set()
    vt = vtables(prog)
    for f in prog.funcs:
        fn = prog.funcs[f]
        if not names.own(fn) or not any(
                i.op == 'store' and i.a[0][0] == 'g' and i.a[0][1] in vt and
                vt[i.a[0][1]][0] == 'LayerVtbl'
                for b in fn.blocks for i in b.ins):
            continue
        g = Expander(prog).expand(f)
        if not any(q.k == 'ld' and q.a[0].k == 'fld' and
                   q.a[0].a[1:] == ('Layer', 'type') for n in g.nodes
                   for _, cd in n.succ if cd for q in subterms(cd[0])):
            continue
        L = Live(g, hooked({('Layer', 'type'): c}))
        for n in L.nodes:
            if n.kind == 'store' and n.a[0].k == 'fld' and \
                    n.a[0].a[2] == 'layer_vptr' and n.a[1].k == 'g':
                out.add(n.a[1].a[0])
    return out


def hooked(vals):
    def hook(L, t):
        if t.k == 'ld' and t.a[0].k == 'fld':
            return vals.get(t.a[0].a[1:])
        return None
    return hook


def layerlists(R, gi, wi):
    """imported layers replace the previous ones and keep their order"""
    news = {n.res for n in gi.nodes if n.kind == 'call' and
            n.a[0] in ('malloc', 'calloc') and n.res is not None}
    heads = {}
    for n in gi.nodes:
        if n.kind == 'store' and n.a[0].k == 'fld' and \
                n.a[0].a[2] == 'largs' and strip(n.a[1]) in news:
            heads.setdefault(n.a[0], []).append(n)
    R.require('imported layer lists', len(heads), 3)
    for h, sts in sorted(heads.items(), key=lambda x: str(x[0])):
        nm = show(wi.member(h))

        def empty(cd):
            """the edge is only taken when the list is empty"""
            if cd is None or cd[0].k != 'cmp':
                return False
            c, pol = cd
            return c.a[0] in ('eq', 'ne') and \
                (c.a[0] == 'eq') == bool(pol) and \
                any(x.k == 'ld' and x.a[0] is h and y.k == 'null'
                    for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])))
        for n in sts:
            R.obligation(
                "%s: the first imported layer starts the list" % nm,
                not reach_without(gi, n, empty, h, {n}),
                "importing layers makes a later layer the head of %s (%s)" %
                (nm, n.loc), key=nm + ':order')
        new = {strip(n.a[1]) for n in sts}
        for n in gi.nodes:
            if n.kind == 'store' and n.a[0].k == 'fld' and \
                    n.a[0].a[2] == 'next' and strip(n.a[1]) in new and \
                    n.a[0].a[1] == 'ArgsLayer':
                R.obligation(
                    "%s: imported layers are not added to earlier ones" % nm,
                    not reach_without(gi, n, empty, h, set()),
                    "importing layers can append to the layers that %s held "
                    "before (%s)" % (nm, n.loc), key=nm + ':append')


def reach_without(g, target, empty, h, setters):
    """a path from the entry (or from a store of the head) reaches target
    without the list being known to be empty since"""
    heads = [n for n in g.nodes if n.kind == 'store' and n.a[0] is h]

    def go(start):
        seen = set(start)
        st = list(start)
        while st:
            n = st.pop()
            if n is target:
                return True
            if n.kind == 'store' and n.a[0] is h and \
                    strip(n.a[1]).k in ('null',):
                continue
            for s, cd in n.succ:
                if empty(cd) or s in seen:
                    continue
                seen.add(s)
                st.append(s)
        return False
    if go([g.entry]):
        return True
    if setters:
        for x in heads:
            if strip(x.a[1]).k != 'null' and go([s for s, cd in x.succ
                                                 if not empty(cd)]):
                return True
    return False


def show(m):
    return '->'.join(x.split('.')[-1] for x in m)


def contains_call(t, f):
    return any(q.k == 'call' and q.a[1] == f for q in subterms(t))


def faithful(prog, g, n, q, val, kind, enc, dec):
    """None, or why the stored value is not the item's value"""
    f = tokenfield(q)
    if kind == 'number':
        dbl = n.kind == 'store' and n.a[0].k == 'fld' and prog.field_type(
            n.a[0].a[1], n.a[0].a[2]) in ('double', 'float')
        for x in subterms(val):
            if x.k == 'cast' and contains(x.a[1], q) and (
                    x.a[0] in ('fptrunc', 'trunc') or
                    dbl and x.a[0].startswith('fpto')):
                return "the number is cut to a narrower type (%s)" % x.a[0]
        if q not in {strip(x) for x in leaves(g, val)}:
            return "the value is changed to %s" % val
        if n.kind == 'store' and n.a[0].k == 'fld':
            ft = prog.field_type(n.a[0].a[1], n.a[0].a[2])
            if ft in ('double', 'float') and f != 'valuedouble':
                return "the fraction of the number is lost"
        return None
    if kind == 'bool':
        for x, want in ((1, 1), (0, 0)) if f == 'istrue' else \
                ((2, 1), (1, 0)):
            L = Live.__new__(Live)
            L.g, L.facts, L.memo = g, {}, {}
            L.hook = lambda L, t: x if t is q else None
            if L.ev(val) != want:
                return "true and false are not kept apart as exported"
        return None
    if kind == 'string':
        v = strip(val)
        if enc is None:
            return None if v is q else "the text is changed to %s" % val
        for x in leaves(g, v):
            if x.k == 'call' and x.a[1] == dec[enc] and strip(x.a[2]) is q:
                return None
        return "it is not translated by %s, the inverse of %s" % (
            dec[enc], enc)
    return None


def accepted(rd):
    """the item after this one is reached"""
    return rd.live.returns and nexts(rd, 1)


def nexts(rd, d):
    return [n for n in rd.live.nodes if n.kind == 'load' and
            n.a[0].k == 'fld' and n.a[0].a[1:] == ('cJSON', 'next') and
            (rd.where(n.a[0].a[0]) or ()) == tuple(rd.hyp[:d])]


def goes_on(rd):
    """importing continues although every token of the path exists"""
    r2 = Strict(rd)
    return r2.live.returns or any(nexts(r2, d)
                                  for d in range(1, len(rd.hyp) + 1))


class Strict(Reader):
    """the tokens of the hypothesised path exist"""

    def __init__(self, rd):
        super().__init__(rd.g, rd.hyp, rd.kind, rd.members, rd.calls,
                         rd.roots)

    def hook(self, L, t):
        r = super().hook(L, t)
        if r is not None:
            return r
        if t.k in ('phi', 'call', 'ld') and (
                t.k != 'call' or t.a[1] in GET + ('cJSON_Parse',)) and (
                t.k != 'ld' or isjson(t, 'child')):
            w = self.where(t)
            if w is not None and len(w) <= len(self.hyp) and \
                    tuple(w) == tuple(self.hyp[:len(w)]):
                return Sym('token')
        return None
