"""Shared driver of the reference-comparison properties."""
import ir
from refeq import program, compare


def check(R, FILES, TARGETS, minimum=None):
    prog, bad = program(FILES)
    for f, e in bad.items():
        R.notes.append("reference %s does not compile: %s" % (f, e[-400:]))
    n = 0
    for name, spec in TARGETS.items():
        for sp in spec if isinstance(spec, list) else [spec]:
            ref = sp.get('ref', 'ref_' + name)
            what = name + (' [%s]' % sp['case'] if 'case' in sp else '')
            if ref not in prog.funcs:
                R.notes.append("%s: no reference" % what)
                R.count('open')
                continue
            k, d = compare(prog, name, ref, sp)
            if k == 'open':
                R.count('open')
                R.notes.append("%s: not decided: %s" % (what, d))
                continue
            n += 1
            R.count({'same': 'same value graph',
                     'equal': 'equal under every interpretation tried',
                     'differ': 'different'}[k])
            f = prog.funcs[name]
            R.obligation("%s computes %s" % (what, ref), k != 'differ',
                         "%s (%s:%s) does not compute what its definition "
                         "says: %s (code / definition)" % (
                             name, f.file, f.sline, d), key=what)
    R.require('functions compared', n, minimum or
              max(1, (len(TARGETS) + 1) // 2))
    return prog
