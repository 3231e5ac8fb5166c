"""Temporary resources are released on every path."""
from typestate import *
from checks.c04 import owned, must_free

RULE = ("every file handle, heap block, JSON document and exported string "
        "acquired by a function (helpers inlined) is released with the "
        "matching routine, stored in an object, or returned, on every path "
        "that returns to the caller; blocks attached to a local object are "
        "released before the function returns")


def run(R):
    prog = ir.load()
    nr = na = 0
    sites = {}
    bad = {}
    for f in roots(prog):
        g = Expander(prog).expand(f)
        nr += 1
        for n in g.nodes:
            if acquires(n):
                na += 1
                sites.setdefault("%s:%s" % (n.fn.name, n.a[0]), set()).add(f)
        for kind, n in lost_analysis(g):
            k = "%s:%s" % (n.fn.name, n.a[0])
            bad.setdefault(k, "%s acquired by %s at %s is not released "
                           "(%s) on some path through %s" % (
                               n.res, n.a[0], n.loc, kind, f))
    for k, fs in sorted(sites.items()):
        R.obligation("%s is released, owned or returned on every path through "
                     "%d entry points" % (k, len(fs)), k not in bad,
                     bad.get(k), key=k)
    # objects that live in a local variable
    nl = 0
    for f, fn in sorted(prog.funcs.items()):
        if not prog_own(fn) or not any(
                i.op == 'alloca' for b in fn.blocks for i in b.ins):
            continue
        g = Expander(prog).expand(f)
        if g.exit is None:
            continue
        cn = Canon(g)
        names = {i.res for b in fn.blocks for i in b.ins if i.op == 'alloca'}
        al = {t for n in g.nodes if n.kind == 'store' and n.a[0].k == 'fld'
              for t in [bases(n.a[0])] if t.k == 'alloca' and
              t.a[1] in names}
        fr = None
        for root in sorted(al, key=str):
            own = owned(g, cn, root)
            if not own:
                continue
            fr = must_free(g, cn) if fr is None else fr
            for t, nd in sorted(own.items(), key=lambda kv: str(kv[0])):
                nl += 1
                m = ''.join('.' + x.a[2] for x in subterms(t)
                            if x.k == 'fld')
                R.obligation("%s: block %s of a local object" % (f, m),
                             t in fr,
                             "%s: the block allocated at %s for a local "
                             "object (%s) is not released on every path" % (
                                 f, nd.loc, m),
                             key="%s:%s:local" % (f, m))
    R.require('entry points analysed', nr, 200)
    R.require('acquisition sites', na, 300)
    R.count('blocks of local objects', nl)
    R.assume = ["a block stored into an object is owned by it (see C04)"]

