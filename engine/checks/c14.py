"""C14: a fixed seed determines every result."""
from pop import *
from checks.c12 import written, created, base, member, draws
from checks.c09 import internal
from absint import Live
import ir

RULE = ("no path takes a value from a clock, the environment or an "
        "unseeded generator unless the seed is negative; seeding passes the "
        "seed on unchanged and resets all state of the random number "
        "functions; no other process-wide state is ever written; no pointer "
        "value is used as a number or ordered; no block or member is read "
        "before it was written")

SOURCES = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'rand', 'random',
           'drand48', 'lrand48', 'rand_r', 'getpid', 'getppid', 'getrandom',
           'getentropy', 'arc4random', 'arc4random_uniform', 'timespec_get',
           'localtime', 'gmtime', 'ftime', 'times', 'getrusage',
           'omp_get_wtime', 'omp_get_thread_num', 'pthread_self', 'gettid',
           'srand', 'srandom', 'ctime', 'sched_getcpu', 'omp_get_max_threads',
           'omp_get_num_threads', 'get_nprocs', 'sysconf'}
SEEDER = 'param_set_random_state'


def calls(f):
    for b in f.blocks:
        for i in b.ins:
            if i.op in ('call', 'invoke'):
                c = i.x if not isinstance(i.x, tuple) else i.x[0]
                yield i, str(c)


def run(R):
    prog = ir.load()
    if SEEDER not in prog.funcs:
        raise ir.AnalysisError("function %s not found" % SEEDER)
    callees = {n: names.callees(f) for n, f in prog.funcs.items()}
    own = {n for n, f in prog.funcs.items() if names.own(f)}
    # 1. sources of nondeterminism
    src = {n for n in own if set(callees[n]) & SOURCES}
    R.require('functions reading a clock', len(src), 1)
    closure, todo = set(), sorted(src)
    while todo:
        n = todo.pop()
        if n in closure or n == SEEDER:
            continue
        closure.add(n)
        if not reseeds(prog, n):
            continue
        todo += [m for m in own if n in callees[m]]
    for n in sorted(closure):
        f = prog.funcs[n]
        R.obligation("%s only seeds the generator" % n, reseeds(prog, n),
                     "%s (%s) uses a clock or other unseeded source (%s) for "
                     "something else than seeding the generator" % (
                         n, f.where(), ', '.join(
                             sorted(set(callees[n]) & SOURCES) or
                             sorted(set(callees[n]) & closure))),
                     key=n + ':source')
    f = prog.funcs[SEEDER]
    g = Expander(prog).expand(SEEDER)
    seed = mk('arg', len(f.args) - 1, f.args[-1])
    for v in (0, 1, 2, 7, 1000, 2 ** 31 - 1):
        L = Live(g, facts={seed: v})
        bad = [n for n in L.nodes if n.kind == 'call' and n.a[0] in SOURCES]
        R.obligation("seed %d reads no clock" % v, not bad,
                     "%s (%s): with seed %d the generator is seeded from %s "
                     "(%s)" % (SEEDER, f.where(), v, bad[0].a[0] if bad else '',
                               bad[0].loc if bad else ''), key='seed:clock')
        ini = [n for n in L.nodes if seeds(n)]
        R.obligation("seed %d is used" % v, bool(ini) and all(
            any(isinstance(x, T) and L.ev(x) == v for x in n.a[1:])
            for n in ini),
            "%s (%s): the generator is not seeded with the given value %d" %
            (SEEDER, f.where(), v), key='seed:value')
    # every path of the seeder seeds
    st = forward(g, False, lambda n, s: s or seeds(n),
                 lambda a, b: a and b, None)
    R.obligation("setting the state always seeds", bool(st.get(g.exit)),
                 "%s (%s): on some path the generator is not seeded" %
                 (SEEDER, f.where()), key='seed:always')
    # 2. process-wide state
    wr = {}
    for n in own:
        for b in prog.funcs[n].blocks:
            for i in b.ins:
                if i.op == 'store' and i.a[1][0] == 'g':
                    wr.setdefault(i.a[1][1], []).append((n, i))
    reset = {}
    for n in g.nodes:
        if n.kind == 'store' and n.a[0].k == 'g':
            reset.setdefault(n.a[0].a[0], []).append(n)
    geps = {}
    gl = {n for n, q in prog.globals.items() if not q.get('const') and
          not str(n).startswith('.str') and
          q.get('init') is not None}
    for n in own:
        gr = None
        for b in prog.funcs[n].blocks:
            for i in b.ins:
                if i.op in ('getelementptr', 'call') and any(
                        isinstance(a, tuple) and a[:1] == ('g',) and
                        a[1] in gl for a in i.a or ()):
                    gr = True
        if gr:
            G = Expander(prog, opaque=lambda q: True).expand(n)
            for q in G.nodes:
                for a in written(q):
                    bb = base(a)
                    if bb.k == 'g' and bb.a[0] in gl:
                        wr.setdefault(bb.a[0], []).append((n, None))
    R.count('process-wide variables', len(gl))
    rng_fns = {n for n in own if any('dsfmt' in c.lower()
                                     for c in callees[n])}
    for v, sites in sorted(wr.items()):
        fs = sorted({n for n, _ in sites})
        if all(n in rng_fns for n in fs if n not in reset_fns(prog, callees)):
            ok = flag_reset(g, v, wr, fs, prog)
            R.obligation("seeding resets %s" % v, ok,
                         "state of the random numbers kept by %s (%s) survives "
                         "seeding with %s" % (', '.join(fs), v, SEEDER),
                         key='seed:kept-state')
        else:
            R.obligation("%s is not shared" % v, False,
                         "%s (%s) keeps the process-wide variable %s: results "
                         "depend on earlier or other systems" % (
                             fs[0], prog.funcs[fs[0]].where(), v),
                         key='global:%s' % str(v).split('@')[0])
    # 3. pointers as numbers
    np_ = 0
    for n in sorted(own):
        F = prog.funcs[n]
        for b in F.blocks:
            for i in b.ins:
                if i.op == 'ptrtoint':
                    np_ += 1
                    use = [j for bb in F.blocks for j in bb.ins
                           if any(isinstance(a, tuple) and a == ('v', i.res)
                                  for a in j.a or ())]
                    ok = bool(use) and all(j.op == 'sub' for j in use)
                    R.obligation("%s: address used as a number" % n, ok,
                                 "%s (%s) uses an address as a number" %
                                 (n, F.where()), key=n + ':address')
                if i.op == 'icmp' and isptr(i) and i.x is not None and \
                        str(i.x) not in ('eq', 'ne') and 'eq' not in str(i.x) \
                        and 'ne' not in str(i.x):
                    R.obligation("%s: addresses ordered" % n, False,
                                 "%s (%s) orders addresses" % (n, F.where()),
                                 key=n + ':order')
    # 4. read before written
    roots = set()
    for v, (ty, slots) in vtables(prog).items():
        roots |= {q for q in slots.values() if q}
    for n, F in prog.funcs.items():
        if names.own(F) and not internal(F) and n != 'main':
            roots.add(n)
    nb = 0
    for n in sorted(roots):
        nb += uninit(R, prog, n)
    R.require('blocks tracked', nb, 100)
    R.require('functions analysed for initialisation', len(roots), 300)


def isptr(i):
    return getattr(i, 'ty', None) == 'ptr'


def seeds(n):
    return n.kind == 'call' and 'dsfmt' in n.a[0].lower() and \
        'init' in n.a[0].lower()


def reset_fns(prog, callees):
    return {n for n, c in callees.items() if any(
        'dsfmt' in x.lower() and 'init' in x.lower() for x in c)}


def reseeds(prog, n):
    """the function does nothing but seed the generator"""
    f = prog.funcs[n]
    if not str(f.ret if hasattr(f, 'ret') else '').startswith('void'):
        if names.fsig(f)[0] != 'void':
            return False
    g = Expander(prog).expand(n)
    ok = any(seeds(q) for q in g.nodes)
    for q in g.nodes:
        for a in written(q):
            b = base(a)
            if b.k == 'arg':
                return False
    return ok


def flag_reset(g, v, wr, fs, prog):
    """seeding stores a constant to v, or to a variable that guards it"""
    def const_store(x):
        st = forward(g, False, lambda n, s: s or (
            n.kind == 'store' and n.a[0].k == 'g' and n.a[0].a[0] == x and
            n.a[1].k in ('c', 'fc')), lambda a, b: a and b, None)
        return bool(st.get(g.exit))
    if const_store(v):
        return True
    # kept value read only while a flag that seeding clears is set
    flags = [x for x in wr if x != v and const_store(x)]
    if not flags:
        return False
    for n in fs:
        G = Expander(prog, opaque=lambda q: True).expand(n)
        for q in G.nodes:
            if q.kind == 'load' and q.a[0].k == 'g' and q.a[0].a[0] == v:
                if not guarded(G, q, flags, v):
                    return False
    return True


def guarded(G, q, flags, v):
    """every path to q passes a test of a flag or a store to v"""
    seen, todo = set(), [G.entry]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n is q:
            return False
        if n.kind == 'store' and n.a[0].k == 'g' and n.a[0].a[0] == v:
            continue
        for s, cd in n.succ:
            if cd and any(t.k in ('ld', 'vld') and t.a[0].k == 'g' and
                          t.a[0].a[0] in flags for t in subterms(cd[0])):
                continue
            todo.append(s)
    return True


ALLOC = {'malloc'}
# structures that arrive empty
EMPTY = {'param_init': 0, 'cl_init': 1, 'clset_init': 0, 'neural_init': 0}
FILL = {'memset', 'memcpy', 'memmove', 'fread', 'snprintf', 'sprintf',
        'strncpy', 'strcpy', 'fgets', 'fscanf', 'sscanf', 'vsnprintf',
        'strcat', 'strncat'}


def key_of(a, blocks):
    """(block, key) of an address inside a tracked block"""
    path = []
    while a.k in ('idx', 'fld'):
        if a in blocks:
            break
        path.append(a.a[2] if a.k == 'fld' else '[]')
        a = a.a[0]
    if a in blocks:
        p = [x for x in path if x != '[]']
        return a, (p[-1] if p else '[]')
    return None, None


def uninit(R, prog, f):
    F = prog.funcs[f]
    g = Expander(prog, vload=vload).expand(f)
    blocks = {}
    for n in g.nodes:
        if n.kind == 'call' and n.a[0] in ALLOC and n.res is not None:
            blocks[n.res] = n
    for n in g.nodes:
        for t in written(n) + ([n.a[0]] if n.kind == 'load' else []):
            while t.k in ('idx', 'fld'):
                t = t.a[0]
            if t.k == 'alloca' and t not in blocks:
                blocks[t] = None
    if f in EMPTY and EMPTY[f] < len(F.args):
        blocks[mk('arg', EMPTY[f], F.args[EMPTY[f]])] = None
    if not blocks:
        return 0
    loads = [(n, key_of(n.a[0], blocks)) for n in g.nodes if n.kind == 'load']
    loads = [(n, k) for n, k in loads if k[0] is not None]
    if not loads:
        return len(blocks)
    care = {k for _, k in loads}

    def wr(n):
        out = set()
        if n.kind in ('store', 'atomic'):
            b, k = key_of(n.a[0], blocks)
            if b is not None:
                out.add((b, k))
            v = n.a[1]
            b2 = v
            while b2.k in ('idx', 'fld', 'cast'):
                b2 = b2.a[-1] if b2.k == 'cast' else b2.a[0]
            # address stored elsewhere: may be filled through another name
            if b2 in blocks:
                pass
        elif n.kind in ('call', 'vcall'):
            c = n.a[0]
            lib = c.split('.')[1] if c.startswith('llvm.mem') else c
            if n.kind == 'call' and lib.startswith('llvm.'):
                return out
            if lib in ('free', 'realloc'):
                return out
            for x in n.a[1:]:
                if not isinstance(x, T):
                    continue
                b2 = x
                while b2.k in ('idx', 'fld', 'cast'):
                    b2 = b2.a[-1] if b2.k == 'cast' else b2.a[0]
                if b2 in blocks:
                    q = x
                    bk, kk = key_of(x, blocks)
                    out |= {c2 for c2 in care if c2[0] is b2 and (
                        kk == '[]' or c2[1] == kk or x is b2)}
                # a pointer to something holding the block
        return out
    W = {n: frozenset(wr(n)) for n in g.nodes}
    U = frozenset(care)
    ls = loops(g)
    done = {}
    for L in ls:
        s = set()
        for n in L.nodes:
            if W[n]:
                # arrays filled up to a counter
                s |= {w for w in W[n] if w[1] == '[]' or unconditional(L, n)}
        done[L] = frozenset(s)
    exits = {}
    for L in ls:
        for n, s, _ in L.exits:
            exits.setdefault((n, s), set()).update(done[L])
    # inner loops count for the outer ones
    for L in sorted(ls, key=lambda q: -q.depth):
        if L.parent is not None and unconditional(L.parent, L.header):
            done[L.parent] = done[L.parent] | done[L]
            for n, s, _ in L.parent.exits:
                exits.setdefault((n, s), set()).update(done[L.parent])

    facts = {}
    if f == 'param_init':       # dimensions are positive
        facts = {mk('arg', i, a): 1 for i, a in enumerate(F.args)
                 if F.argtypes[i] == 'i32'}
    live = Live(g, facts=facts)

    def edge(n, s, c, o):
        if not any(q is s and (n, i) in live.edges
                   for i, (q, _) in enumerate(n.succ)):
            return None
        e = exits.get((n, s))
        return o | e if e else o

    def tr(n, s):
        if n.kind == 'call' and n.res in blocks:
            return frozenset(x for x in s if x[0] is not n.res)
        return s | W[n]
    st = forward(g, frozenset(), tr, lambda a, b: a & b, edge)
    seen = set()
    for n, (b, k) in loads:
        if st.get(n) is None or (b, k) in seen:
            continue
        if (b, k) in st[n] or b.k == 'alloca' and (b, '[]') in st[n] and \
                k == '[]':
            continue
        if (b, '[]') in st[n]:
            continue
        seen.add((b, k))
        R.obligation("%s: %s of %s" % (f, k, b), False,
                     "%s (%s) reads %s before anything was written to it (%s)"
                     % (f, F.where(), str(n.a[0])[:70], n.loc),
                     key='%s:uninit:%s' % (n.fn.name if n.fn else f, k))
    R.count('reads of new storage', len(loads))
    R.obligation("%s: %d reads of new storage" % (f, len(loads)), True)
    return len(blocks)


def unconditional(L, n):
    """every round of the loop passes n"""
    if n not in L.nodes:
        return False
    seen, todo = set(), [s for s, _ in L.header.succ if s in L.nodes]
    if n is L.header:
        return True
    while todo:
        q = todo.pop()
        if q is n or q in seen:
            continue
        if q is L.header:
            return False
        seen.add(q)
        todo += [s for s, _ in q.succ if s in L.nodes]
    return True
