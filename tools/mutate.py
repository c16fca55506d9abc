#!/usr/bin/env python3
"""Quick survey of one-line mutants (never used by a check): mutate.py SPEC.py
SPEC defines M = [(file, old, new, 'C20,C21'), ...]; each is applied to a scratch copy and the checks run on it."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.environ.get('MUTREPO', '/tmp/mutrepo')


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


if not os.path.isdir(C):
    sh('git clone -q /repo ' + C)
sh('cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % C)
ns = {}
exec(open(sys.argv[1]).read(), ns)
for n, (f, a, b, props) in enumerate(ns['M']):
    p = os.path.join(C, f)
    x = open(p).read()
    if a not in x:
        print(n, 'NOT FOUND', f, a)
        continue
    k = x.count(a)
    open(p, 'w').write(x.replace(a, b, 1))
    out = []
    for q in props.split(','):
        env = dict(os.environ, VERIF_REPO=C, VERIF_BUILD=os.environ.get('MUTBUILD', '/tmp/mutbuild'), VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['python3', V + '/tools/check.py', q], env=env, capture_output=True, text=True, cwd=V)
        keys = [l.strip()[:110] for l in r.stdout.splitlines() if 'key=' in l]
        out.append('%s %s %s' % (q, 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'rc%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:]), keys[:1]))
        if r.returncode == 1:
            break
    open(p, 'w').write(x)
    print(n, f, repr(a[:60]), '->', repr(b[:60]), '(x%d)' % k if k > 1 else '', '|', '; '.join(out), flush=True)
