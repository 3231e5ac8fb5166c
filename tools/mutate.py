"""Runs a check against small source mutations (broken: must be reported;
kept: behaviour-preserving, must stay quiet).
usage: mutate.py SPEC.py [index ...]; SPEC defines CHECK, BROKEN, KEPT as lists
of [(file, old, new), ...] edits."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
pick = {int(x) for x in sys.argv[2:]}


def one(job):
    i, want, edits, check = job
    d = '/tmp/mut.%d.%d' % (os.getpid(), i)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns(
        '.git', 'build*'))
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return i, want, check, 'EDIT DOES NOT APPLY: %s' % old[:60]
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/ev')
        r = subprocess.run([sys.executable, here + '/engine/run.py', check],
                           capture_output=True, text=True, env=env)
        out = [l for l in r.stdout.splitlines() if l.startswith('  [')]
        ok = (r.returncode == 1) if want else (r.returncode == 0)
        return i, want, check, ('ok  ' if ok else 'MISS' if want and
                                r.returncode == 0 else 'BAD(rc %d)' %
                                r.returncode) + ' ' + (
            out[0][:170] if out else (r.stdout + r.stderr)[-300:] if not ok and r.returncode else '')
    finally:
        shutil.rmtree(d)


jobs = []
for want, l in ((True, spec.get('BROKEN', [])), (False, spec.get('KEPT', []))):
    for e in l:
        if isinstance(e, tuple) and isinstance(e[0], str) and \
                isinstance(e[1], list):
            check, e = e
        else:
            check = spec['CHECK']
        i = len(jobs)
        jobs.append((i, want, e if isinstance(e, list) else [e], check))
jobs = [j for j in jobs if not pick or j[0] in pick]
with ThreadPoolExecutor(7) as ex:
    for i, want, check, r in ex.map(one, jobs):
        print('%2d %s %-6s %s' % (i, check, 'broken' if want else 'kept', r))
