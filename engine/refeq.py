"""Comparison of the value graph of a function with that of its reference."""
import glob, os, resource, signal, sys
import ir, vn
from summary import Summary, lst, lregion, entfp, Undecided
from vneval import difference

REF = os.path.join(os.path.dirname(ir.HERE), 'ref')
_load = {}


def program(files):
    key = tuple(files)
    if key not in _load:
        _load[key] = ir.load_with([os.path.join(REF, f) for f in files])
    return _load[key]


def local(A):
    r = vn.objroot(A)
    return vn.fresh(r) and r.a[0] == 'alloca'


def image(S):
    """comparable image of a summary"""
    out = [('pc', S.st.pc.fp), ('ret', S.ret.fp if S.ret is not None else 0)]
    mem = lst(S.st.mem)
    rest = []
    for e in mem:
        if e[0] == 'st':
            A = e[2]
            if local(A):
                continue
            try:
                v = S.load(S.st.mem, A, e[4])
            except Undecided:
                return None
            if v is not S.initial(A, e[4]):
                out.append(('st', A.fp, v.fp))
        elif e[0] == 'each' and local(e[3]) or \
                e[0] == 'blk' and local(e[2]):
            continue
        else:
            rest.append(repr(entfp(e)))
    out = sorted(set(out), key=repr) + rest
    evs = []
    for e in lst(S.st.ev):
        if e[0] != 'bar':
            f = entfp(e)
            evs.append(repr(f[:3] if e[0] == 'ev' else f))
    return out + sorted(evs)


def summary(prog, name, spec):
    vn.LIMIT[0] = 0
    return Summary(prog, name, opaque=spec.get('opaque', ()),
                   facts=spec.get('facts'),
                   unroll=spec.get('unroll', False))


class Late(BaseException):
    pass


def late(*_):
    raise Late()


def compare(prog, name, ref, spec, tries=2000, seconds=150):
    """as compare0, within bounds of time and memory; beyond: not decided"""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    lim = 8 << 30
    if soft == resource.RLIM_INFINITY or soft > lim:
        resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        return compare0(prog, name, ref, spec, tries)
    except Late:
        return 'open', 'not decided within %d s' % seconds
    except MemoryError:
        return 'open', 'not decided within the memory limit'
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def compare0(prog, name, ref, spec, tries=2000):
    """('same' | 'equal' | 'differ' | 'open', detail)"""
    k, d = compare1(prog, name, ref, spec, tries)
    for alt in spec.get('alts', ()):
        if k != 'differ':
            break
        k2, d2 = compare1(prog, name, alt, spec, tries)
        if k2 != 'differ':
            k, d = k2, d2
    return k, d


def calls(prog, name):
    return {t for b in prog.funcs[name].blocks for i in b.ins
            if i.op == 'call' and isinstance(i.x, dict)
            for t in [i.x['callee'][1]] + list(i.x['targets'])}


def compare1(prog, name, ref, spec, tries):
    if name not in prog.funcs:
        return 'open', 'no function of that name'
    if ref not in prog.funcs:
        return 'open', 'no reference'
    f, r = prog.funcs[name], prog.funcs[ref]
    if f.internal and (f.args != r.args or f.argtypes != r.argtypes or
                       f.ret != r.ret):
        # not part of any interface: free to be defined differently
        return 'open', 'internal function with other parameters'
    if spec.get('recursive') and name not in calls(prog, name):
        return 'open', 'not defined by recursion'
    for h in spec.get('opaque', ()):
        if h not in prog.funcs:
            return 'open', 'no function %s' % h
        if prog.funcs[h].internal and h in spec.get('internal', {}) and \
                prog.funcs[h].args != spec['internal'][h].split():
            return 'open', 'internal function %s with other parameters' % h
    try:
        R = summary(prog, ref, spec)
    except (Undecided, RecursionError) as e:
        return 'open', ('reference: %s' % e)[:300]
    try:
        S = summary(prog, name, spec)
    except (Undecided, RecursionError) as e:
        return 'open', str(e)[:300]
    a, b = image(S), image(R)
    if a is not None and a == b:
        return 'same', ''
    ok, d = difference(S, R, prog, tries, spec.get('hints'))
    if d:
        return 'differ', d
    if ok < 20:
        from vneval import SKIPS
        return 'open', 'only %d usable interpretations %s' % (ok, SKIPS)
    return 'equal', '%d interpretations' % ok


if __name__ == '__main__':
    sys.setrecursionlimit(50000)
    import importlib, time
    sys.path.insert(0, os.path.join(ir.HERE, 'checks'))
    mod = importlib.import_module(sys.argv[1])
    prog, bad = program(mod.FILES)
    print({k: v[-600:] for k, v in bad.items()})
    for name, spec in mod.TARGETS.items():
        if len(sys.argv) > 2 and name not in sys.argv[2:]:
            continue
        t = time.time()
        for sp in spec if isinstance(spec, list) else [spec]:
            print(name, *compare(prog, name, sp.get('ref', 'ref_' + name),
                                 sp), '%.1fs' % (time.time() - t))
