"""C08: values outside a parameter's range never take effect."""
from json_model import *
import ir, names, math
from c07 import Strict, goes_on, accepted, Where, FAM

RULE = ("for every ranged parameter, constant propagation of the values at and "
        "just outside its limits through the JSON importer and through every "
        "setter: inside values are stored, outside values reach no store and "
        "are reported; results of setters are examined at every call whose "
        "argument is not a valid constant; unknown type names reach no next "
        "item; the limits stated in messages are the limits enforced; stored "
        "systems of another version are not read")

INF = math.inf
# JSON path: (low, high, integer)
LIMITS = {
    ('x_dim',): (1, INF), ('y_dim',): (1, INF), ('n_actions',): (1, INF),
    ('omp_num_threads',): (1, 1000), ('max_trials',): (1, INF),
    ('perf_trials',): (1, INF), ('pop_size',): (1, INF),
    ('huber_delta',): (0, INF), ('gamma',): (0, 1),
    ('teletransportation',): (1, INF), ('p_explore',): (0, 1),
    ('alpha',): (0, 1), ('beta',): (0, 1), ('delta',): (0, 1),
    ('e0',): (0, INF), ('init_error',): (0, INF), ('init_fitness',): (0, INF),
    ('nu',): (0, INF), ('theta_del',): (0, INF), ('m_probation',): (0, INF),
    ('theta_sub',): (0, INF), ('ea', 'select_size'): (0, 1),
    ('ea', 'theta_ea'): (0, INF), ('ea', 'lambda'): (2, INF),
    ('ea', 'p_crossover'): (0, 1), ('ea', 'err_reduc'): (0, 1),
    ('ea', 'fit_reduc'): (0, 1)}


# arguments of types: a value outside is replaced by the nearest limit, with a
# warning.  (section, key): (low, high)
CLAMPED = {('condition', 'eta'): (0, 1), ('condition', 'p_dontcare'): (0, 1),
           ('condition', 'spread_min'): (0, INF), ('condition', 'bits'):
           (1, INF), ('condition', 'n_constants'): (1, INF),
           ('condition', 'init_depth'): (1, INF),
           ('condition', 'max_len'): (1, INF), ('condition', 'max_k'):
           (1, INF), ('condition', 'max_t'): (1, INF),
           ('condition', 'n'): (1, INF), ('prediction', 'eta'): (0, 1),
           ('prediction', 'eta_min'): (0, 1)}


class ValReader(Strict):
    """the item at the path has the given value"""

    def __init__(self, g, hyp, kind, val, members=None, calls=None):
        self.val = val
        Reader.__init__(self, g, hyp, kind, members, calls)

    def hook(self, L, t):
        if isjson(t) and t.a[0].a[2] in ('valuedouble', 'valueint'):
            w = self.where(t.a[0].a[0])
            if w is not None and tuple(w) == tuple(self.hyp):
                return int(self.val) if t.a[0].a[2] == 'valueint' \
                    else float(self.val)
        return super().hook(L, t)


def probes(lo, hi, isint):
    """[(value, inside)]"""
    e = 1 if isint else 1e-6
    out = [(lo, True), (lo + e, True), (lo - e, False), (lo - 1000, False)]
    if hi < INF:
        out += [(hi, True), (hi - e, True), (hi + e, False),
                (hi + 1000, False)]
        if not isint:
            out += [(lo + 0.5 * (hi - lo), True)]
        if not isint:
            out += [(lo - 0.5, False), (hi + 0.5, False)]
    else:
        out += [(lo + 100000, True)]
    return out


def run(R):
    prog = ir.load()
    tabs = names.tables(prog)
    dec = {t[0]: t[2] for t in tabs}
    op = {t[0] for t in tabs} | {t[2] for t in tabs if t[2]}
    ge = Expander(prog, opaque=op).expand('param_json_export')
    gi = Expander(prog, opaque=op).expand('param_json_import')
    items = Writer(ge).items()
    member = {}
    seen = set()
    for path, kind, v, ns in items:
        if path not in LIMITS or path in seen:
            continue
        seen.add(path)
        lo, hi = LIMITS[path]
        a = strip(v)
        if a.k != 'ld' or a.a[0].k != 'fld':
            continue
        mem = a.a[0].a[1:]
        member[mem] = path
        isint = prog.field_type(*mem) not in ('double', 'float')
        tag = '/'.join(path)
        bad = []
        for x, inside in probes(lo, hi, isint):
            rd = ValReader(gi, path, 'number', x)
            # (the item after this one may be reached or the list may end)
            st = [n for n in rd.live.nodes if n.kind == 'store' and
                  n.a[0].k == 'fld' and n.a[0].a[1:] == mem]
            on = any(nexts_any(rd, d) for d in range(1, len(path) + 1))
            if inside and not (st and on):
                bad.append("%s is rejected" % x)
            if not inside and (st or on or rd.live.returns):
                bad.append("%s is %s" % (x, 'stored' if st else
                                         'skipped silently'))
        R.obligation("import %s: [%s,%s] enforced" % (tag, lo, hi), not bad,
                     "importing '%s' (range [%s,%s]): %s" %
                     (tag, lo, hi, '; '.join(bad)), key='import:' + tag)
    R.require('ranged parameters', len(seen), 25)
    # setters
    setters = {}
    for n, f in sorted(prog.funcs.items()):
        if not names.own(f) or len(f.args) != 2:
            continue
        g = None
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'store':
                    g = g or Expander(prog).expand(n)
        if g is None:
            continue
        arg = mk('arg', 1, f.args[1])
        for s in g.nodes:
            if s.kind == 'store' and s.a[0].k == 'fld' and \
                    s.a[0].a[1:] in member and strip(s.a[1]) is arg:
                setters.setdefault(n, (g, arg, s.a[0].a[1:]))
    R.require('setters', len(setters), 20)
    for n, (g, arg, mem) in sorted(setters.items()):
        path = member[mem]
        lo, hi = LIMITS[path]
        isint = prog.field_type(*mem) not in ('double', 'float')
        bad = []
        msgs = set()
        for x, inside in probes(lo, hi, isint):
            L = Live(g, facts={arg: x if isint else float(x)})
            st = [s for s in L.nodes if s.kind == 'store' and
                  s.a[0].k == 'fld' and not s.a[0].a[0].k == 'alloca']
            hit = [s for s in st if s.a[0].a[1:] == mem]
            ret = L.ret() if L.returns else set()
            if inside and (not hit or not L.returns or ret - {0, None}):
                bad.append("%s is rejected" % x)
            if not inside and (st or 0 in ret or None in ret):
                bad.append("%s is %s" % (x, 'stored' if st else
                                         'not reported'))
            if not inside:
                msgs |= {m for m in ret if isinstance(m, str)}
        R.obligation("%s: [%s,%s] enforced" % (n, lo, hi), not bad,
                     "%s (%s), range [%s,%s]: %s" %
                     (n, prog.funcs[n].where(), lo, hi, '; '.join(bad)),
                     key='setter:' + '/'.join(path))
        for m in sorted(msgs):
            r = stated(m)
            if r is None:
                continue
            slo, shi, open_lo = r
            if open_lo:
                slo = slo + 1 if isint else slo
            R.obligation("%s: message states the range" % n,
                         (slo, shi) == (lo, hi),
                         "%s says '%s' but enforces [%s,%s]" % (n, m, lo, hi),
                         key='message:' + '/'.join(path))
    clamped(R, prog, gi, items, tabs, dec)
    # results of setters are examined
    nsite = 0
    rep = {n for n in setters if reports(setters[n][0])}
    for n, f in sorted(prog.funcs.items()):
        if not names.own(f):
            continue
        used = None
        for b in f.blocks:
            for i in b.ins:
                if i.op not in ('call', 'invoke') or \
                        i.x['callee'][0] != 'g' or \
                        i.x['callee'][1] not in rep:
                    continue
                nsite += 1
                c = i.x['callee'][1]
                g, arg, mem = setters[c]
                k = i.a[1]
                used = used if used is not None else operands(f)
                ok = i.res is not None and i.res in used
                val = const(k)
                if not ok and val is not None:
                    L = Live(g, facts={arg: val})
                    ok = L.returns and L.ret() <= {0}
                R.obligation("%s: result of %s examined" % (n, c), ok,
                             "%s ignores the result of %s for a value that is "
                             "not known to be valid (%s)" %
                             (n, c, i.loc if hasattr(i, 'loc') else f.where()),
                             key="ignored:%s:%s" % (
                                 n, '/'.join(member[mem])))
    R.require('calls of setters', nsite, 40)
    # unknown names of types
    nn = 0
    for path, kind, v, ns in items:
        v = strip(v)
        if kind != 'string' or v.k != 'call' or v.a[1] not in dec or \
                ('n', path) in seen:
            continue
        seen.add(('n', path))
        t = [t for t in tabs if t[0] == v.a[1]][0]
        inv = names.decode(t[3], Sym('other'))
        tag = '/'.join(path)
        nn += 1
        if inv is None:
            R.obligation("%s: unknown names end the import" % tag, True)
            continue
        rd = ValReader(gi, path, 'string', 0, calls={t[2]: inv})
        ok = not rd.live.returns and not any(
            nexts_any(rd, d) for d in range(1, len(path) + 1))
        R.obligation("%s: unknown names are rejected" % tag, ok,
                     "param_json_import goes on after an unknown name under "
                     "'%s'" % tag, key='name:' + tag)
    R.require('named types', nn, 8)
    version(R, prog)
    loaded(R, prog)
    unparsed(R, prog)
    invalid_names(R, prog, tabs)
    direct(R, prog, member, setters)


def clamped(R, prog, gi, items, tabs, dec):
    fams = {}
    for path, kind, v, ns in items:
        v = strip(v)
        if len(path) == 2 and path[1] == 'type' and v.k == 'call' and \
                v.a[1] in dec and path[0] in FAM:
            fams[path[0]] = [t for t in tabs if t[0] == v.a[1]][0][1]
    done = set()
    mems = {}
    for path, kind, v, ns in items:
        if len(path) != 3 or (path[0], path[2]) not in CLAMPED or \
                path in done:
            continue
        done.add(path)
        lo, hi = CLAMPED[path[0], path[2]]
        a = strip(v)
        if a.k != 'ld' or a.a[0].k != 'fld':
            continue
        mem = a.a[0].a[1:]
        mems[mem] = path
        isint = prog.field_type(*mem) not in ('double', 'float')
        bad = set()
        used = 0
        for c, nm in sorted(fams[path[0]].items()):
            for x, inside in probes(lo, hi, isint):
                rd = ValReader(gi, path, 'number', x, {FAM[path[0]]: c})
                st = [n for n in rd.live.nodes if n.kind == 'store' and
                      n.a[0].k == 'fld' and n.a[0].a[1:] == mem]
                if not st:
                    continue
                used += 1
                want = x if inside else (lo if x < lo else hi)
                if not isint:
                    want = float(want)
                for n in st:
                    for t in rd.live.leaves(n.a[1]):
                        r = rd.live.ev(t)
                        if r is not None and r != want:
                            bad.add("%s is stored as %s" % (x, r))
                        if r is None:
                            bad.add("%s is stored as %s" % (x, t))
        R.obligation("import %s: limited to [%s,%s]" %
                     ('/'.join(path), lo, hi), used and not bad,
                     "importing '%s' (range [%s,%s]): %s" %
                     ('/'.join(path), lo, hi, '; '.join(sorted(bad)) or
                      'never stored'), key='limit:' + '/'.join(path))
    R.require('limited arguments', len(mems), len(CLAMPED))
    # directly through the setters
    ns = 0
    for n, f in sorted(prog.funcs.items()):
        if not names.own(f) or len(f.args) != 2 or f.internal:
            continue
        if not any(i.op == 'store' for b in f.blocks for i in b.ins):
            continue
        g = Expander(prog).expand(n)
        arg = mk('arg', 1, f.args[1])
        ms = {s.a[0].a[1:] for s in g.nodes if s.kind == 'store' and
              s.a[0].k == 'fld' and s.a[0].a[1:] in mems and
              strip(s.a[1]) is arg or s.kind == 'store' and
              s.a[0].k == 'fld' and s.a[0].a[1:] in mems and
              any(strip(t) is arg for t in leaves(g, s.a[1]))}
        for mem in sorted(ms):
            path = mems[mem]
            lo, hi = CLAMPED[path[0], path[2]]
            isint = prog.field_type(*mem) not in ('double', 'float')
            ns += 1
            bad = set()
            for x, inside in probes(lo, hi, isint):
                L = Live(g, facts={arg: x if isint else float(x)})
                want = x if inside else (lo if x < lo else hi)
                if not isint:
                    want = float(want)
                said = any(q.kind == 'call' and q.a[0] in
                           ('printf', 'puts', 'fprintf', 'fputs', 'putchar',
                            'fwrite') for q in L.nodes)
                for s in L.nodes:
                    if s.kind == 'store' and s.a[0].k == 'fld' and \
                            s.a[0].a[1:] == mem:
                        for t in L.leaves(s.a[1]):
                            r = L.ev(t)
                            if r != want:
                                bad.add("%s is stored as %s" % (
                                    x, t if r is None else r))
                if not inside and not said:
                    bad.add("%s is not reported" % x)
            R.obligation("%s: limited to [%s,%s]" % (n, lo, hi), not bad,
                         "%s (%s), range [%s,%s]: %s" % (
                             n, f.where(), lo, hi, '; '.join(sorted(bad))),
                         key='limit:%s.%s' % mem)
    R.require('limiting setters', ns, 10)


def nexts_any(rd, d):
    return [n for n in rd.live.nodes if n.kind == 'load' and
            n.a[0].k == 'fld' and n.a[0].a[1:] == ('cJSON', 'next') and
            (rd.where(n.a[0].a[0]) or ()) == tuple(rd.hyp[:d])]


def stated(m):
    """(low, high, open) of an error message"""
    import re
    q = re.search(r'[Rr]ange: \[([-\d.]+), ?([-\d.]+)\]', m)
    if q:
        return float(q.group(1)), float(q.group(2)), False
    q = re.search(r'must be >= ([-\d.]+)', m)
    if q:
        return float(q.group(1)), INF, False
    q = re.search(r'must be > ([-\d.]+)', m)
    if q:
        return float(q.group(1)), INF, True
    return None


def reports(g):
    """the function can return a message"""
    return g.ret is not None and any(t.k == 'str' for t in
                                     leaves(g, g.ret))


def operands(f):
    out = set()
    for b in f.blocks:
        for i in b.ins:
            for o in list(i.a or []):
                if isinstance(o, tuple) and o and o[0] == 'v':
                    out.add(o[1])
            x = i.x
            if isinstance(x, dict):
                for o in x.get('args', ()):
                    if isinstance(o, tuple) and o[0] == 'v':
                        out.add(o[1])
            elif isinstance(x, (list, tuple)):
                for o in x:
                    if isinstance(o, tuple) and o and \
                            isinstance(o[0], tuple) and o[0][0] == 'v':
                        out.add(o[0][1])
    return out


def const(o):
    if not o:
        return None
    if o[0] in ('c', 'int', 'const'):
        return o[1]
    if o[0] in ('fc', 'float', 'fp'):
        return float(o[1])
    return None


def version(R, prog):
    """a stored version that differs from this program's is refused before
    anything of the system is replaced"""
    want = []
    for v in ('VERSION_MAJOR', 'VERSION_MINOR'):
        c = {g['init'][1] for n, g in prog.globals.items()
             if n.split('@')[0] == v and g['init'] and g['init'][0] == 'c'}
        if len(c) != 1:
            raise ir.AnalysisError("no constant %s" % v)
        want.append(next(iter(c)))
    g = Expander(prog).expand('xcsf_load')
    # version numbers in the order in which they are read
    cells = []
    order = [n for n in g.nodes if n.kind == 'call' and n.a[0] == 'fread']
    k = 0
    for n in order:
        if base(n.a[1]).k == 'alloca':
            cells.append(n.a[1])
        elif memberpath(n.a[1])[0].k == 'arg':
            k += 1
    R.require('items read after the version', k, 20)
    if len(cells) < 2:
        raise ir.AnalysisError("xcsf_load reads no version")
    cells = cells[:2]

    def live(vals):
        def hook(L, t):
            if t.k in ('ld', 'vld'):
                for c, v in zip(cells, vals):
                    if t.a[0] is c:
                        return v
            return None
        L = Live(g, hook)
        return L, [n for n in order if n in L.nodes and
                   memberpath(n.a[1])[0].k == 'arg']
    L, rd = live(want)
    R.obligation("xcsf_load: the same version is accepted", rd and L.returns,
                 "xcsf_load refuses files of its own version", key='version:own')
    for i, what in enumerate(('major', 'minor')):
        for d in (-1, 1, 7):
            vals = list(want)
            vals[i] += d
            L, rd = live(vals)
            R.obligation("xcsf_load: %s version %+d refused before %d items "
                         "are read" % (what, d, k), not rd,
                         "xcsf_load reads %s although the %s version of the "
                         "file differs (%s)" % (
                             rd[0].a[1] if rd else '', what,
                             rd[0].loc if rd else ''), key='version')


def loaded(R, prog):
    """dimensions read from a file are checked"""
    g = Expander(prog).expand('param_load')
    for m in ('x_dim', 'y_dim', 'n_actions'):
        for v in (0, -1):
            L = Live(g, lambda L, t: v if t.k in ('ld', 'vld') and
                     t.a[0].k == 'fld' and t.a[0].a[1:] == ('XCSF', m)
                     else None)
            R.obligation("param_load: %s = %d is refused" % (m, v),
                         not L.returns, "param_load accepts a file with %s "
                         "= %d" % (m, v), key='load:' + m)


def unparsed(R, prog):
    """text that is no JSON is refused"""
    k = 0
    for n, f in sorted(prog.funcs.items()):
        if not names.own(f) or f.internal or \
                'cJSON_Parse' not in names.callees(f):
            continue
        g = Expander(prog).expand(n)
        ps = {x.res for x in g.nodes if x.kind == 'call' and
              x.a[0] == 'cJSON_Parse' and
              all(t.k == 'arg' for t in leaves(g, x.a[1]))}
        if not ps:
            continue
        k += 1
        L = Live(g, facts={p: 0 for p in ps})
        R.obligation("%s: unreadable JSON is refused" % n, not L.returns,
                     "%s returns normally for text that is no JSON" % n,
                     key='unparsed:' + n)
    R.require('functions reading JSON text', k, 2)


def invalid_names(R, prog, tabs):
    """a name that is not recognised changes nothing"""
    k = 0
    for n, f in sorted(prog.funcs.items()):
        if not names.own(f) or f.internal:
            continue
        cal = names.callees(f)
        for t in tabs:
            if not t[2] or t[2] not in cal:
                continue
            inv = names.decode(t[3], Sym('other'))
            if inv is None:
                continue
            g = Expander(prog, opaque={t[2]}).expand(n)
            ds = {x.res for x in g.nodes if x.kind == 'call' and
                  x.a[0] == t[2] and x.a[1].k == 'arg'}
            if not ds:
                continue
            k += 1
            L = Live(g, facts={d: inv for d in ds})
            bad = [x for x in L.nodes if x.kind == 'store' and
                   memberpath(x.a[0])[0].k == 'arg']
            R.obligation("%s: unknown names change nothing" % n, not bad,
                         "%s stores %s although the name is unknown (%s)" %
                         (n, bad[0].a[0] if bad else '',
                          bad[0].loc if bad else ''),
                         key='unknown:%s:%s' % (n, t[2]))
    R.require('functions setting a type by name', k, 4)


def direct(R, prog, member, setters):
    """nothing but the setters, and loading, stores a ranged parameter"""
    k = 0
    for n, f in sorted(prog.funcs.items()):
        if not names.own(f) or f.internal:
            continue
        g = Expander(prog, opaque=lambda x:
                     not x.internal).expand(n)
        for s in g.nodes:
            if s.kind != 'store' or s.a[0].k != 'fld' or \
                    s.a[0].a[1:] not in member:
                continue
            k += 1
            mem = s.a[0].a[1:]
            if n in setters and setters[n][2] == mem:
                continue
            lo, hi = LIMITS[member[mem]]
            ok = all(t.k in ('c', 'fc') and lo <= t.a[0] <= hi or
                     t.k == 'ld' and t.a[0].k == 'fld' and
                     t.a[0].a[1:] == mem for t in leaves(g, s.a[1]))
            R.obligation("%s: %s.%s stored by its setter" % ((n,) + mem), ok,
                         "%s stores %s in %s without checking its range (%s)" %
                         (n, s.a[1], mem[1], s.loc),
                         key='direct:%s:%s' % (n, mem[1]))
    R.require('stores of ranged parameters', k, 25)
