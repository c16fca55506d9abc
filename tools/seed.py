#!/usr/bin/env python3
"""Author and try planted bugs (never used by a check).

  seed.py make SPEC.py      SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ text, libs=[..])]
  seed.py verify ID...      build + stable tests + demo with and without the patch, in a scratch copy mounted over /repo
  seed.py detect ID...      run the property's check against a patched scratch copy (other checks: ID:C01,C02)
"""
import os, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'seeded')
COPY = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# builds a small program against /repo's libraries and runs it in a scratch directory
D=$(dirname "$(readlink -f "$0")")
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -O1 -w -DERICWTOOLS_VERSION='"demo"' -DFMT_SHARED -DHAVE_EMBREE -DHAVE_EMBREE4 -DLINUX -DUSE_PTHREADS \\
    -I/repo/include -I/repo/_build "$D/demo.cc" -o "$T/demo" @LIBS@ -ltbb -ltbbmalloc -lfmt -lembree4 -lpthread || exit 2
cd "$T" && timeout 120 ./demo "$T"
'''
LIBS = dict(common='/repo/_build/common/libcommon.a', vis='/repo/_build/vis/liblibvis.a', light='/repo/_build/light/libliblight.a',
            qbsp='/repo/_build/qbsp/liblibqbsp.a', maputil='/repo/_build/maputil/liblibmaputil.a')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(SD, s['id'])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        sh('git -C /repo archive HEAD common include vis qbsp light maputil bsputil bspinfo | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b' % (t, t))
        for f, a, b in s['edits']:
            p = os.path.join(t, f)
            x = open(p).read()
            assert x.count(a) == 1, (s['id'], f, x.count(a), a)
            open(p, 'w').write(x.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % t).stdout)
        shutil.rmtree(t)
        if 'script' in s:
            open(os.path.join(d, 'demo.sh'), 'w').write(s['script'])
            for n, x in s.get('files', {}).items():
                open(os.path.join(d, n), 'w').write(x)
        else:
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('@LIBS@', ' '.join(LIBS[l] for l in s.get('libs', ['common']))))
            open(os.path.join(d, 'demo.cc'), 'w').write(s['demo'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])


def fresh_copy():
    if not os.path.isdir(COPY):
        sh('cp -a /repo ' + COPY)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (COPY, COPY, COPY))


def ns_run(cmd):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (COPY, cmd))


def demo_cmd(i):
    # laid elsewhere, as the final check does
    d = tempfile.mkdtemp(prefix='demo')
    for n in os.listdir(os.path.join(SD, i)):
        if not n.endswith(('.diff', '.patch')) and n != 'meta.json':
            shutil.copy(os.path.join(SD, i, n), d)
    return d


def verify(ids):
    fresh_copy()
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = ns_run('bash /opt/vp/build.sh > /tmp/sb.log 2>&1; echo built $?')
    print('clean build', r.stdout.strip())
    for i in ids:
        d = demo_cmd(i)
        c = ns_run('bash %s/demo.sh > /tmp/sd.log 2>&1; echo rc $?' % d)
        clean = c.stdout.strip().split()[-1]
        ap = sh('git -C %s apply %s/%s/patch.diff' % (COPY, SD, i))
        if ap.returncode:
            print(i, 'PATCH DOES NOT APPLY', ap.stderr)
            continue
        b = ns_run('bash /opt/vp/build.sh > /tmp/sb.log 2>&1; echo rc $?').stdout.strip().split()[-1]
        t = ns_run('bash /opt/vp/test.sh /tmp/so.json > /tmp/st.log 2>&1; echo rc $?').stdout
        res = json.load(open('/tmp/so.json'))
        p = ns_run('bash %s/demo.sh > /tmp/sd2.log 2>&1; echo rc $?' % d).stdout.strip().split()[-1]
        sh('git -C %s checkout -q -- .' % COPY)
        shutil.rmtree(d)
        ok = clean == '0' and p != '0' and b == '0' and not res['failed'] and len(res['passed']) >= 116
        print(i, 'OK' if ok else 'BAD', 'demo clean', clean, 'patched', p, 'build', b, 'tests', len(res['passed']), len(res['failed']))
        if not ok:
            print(open('/tmp/sd.log').read()[-1500:], '\n---\n', open('/tmp/sb.log').read()[-600:] if b != '0' else '', open('/tmp/sd2.log').read()[-300:])


def detect(ids):
    fresh_copy()
    for i in ids:
        i, _, props = i.partition(':')
        meta = json.load(open(os.path.join(SD, i, 'meta.json')))
        ap = sh('git -C %s apply %s/%s/patch.diff' % (COPY, SD, i))
        if ap.returncode:
            print(i, 'PATCH DOES NOT APPLY')
            continue
        for p in (props.split(',') if props else [meta['property']]):
            env = dict(os.environ, VERIF_REPO=COPY, VERIF_BUILD='/tmp/seedbuild', VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run(['python3', os.path.join(V, 'tools', 'check.py'), p], env=env, capture_output=True, text=True, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            k = [l.strip() for l in r.stdout.splitlines() if 'key=' in l]
            print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc %d' % r.returncode, k[:2], '' if r.returncode in (0, 1) else r.stdout[-800:] + r.stderr[-800:])
            sys.stdout.flush()
        sh('git -C %s checkout -q -- .' % COPY)


if __name__ == '__main__':
    {'make': lambda a: [make(x) for x in a], 'verify': verify, 'detect': detect}[sys.argv[1]](sys.argv[2:] or sorted(os.listdir(SD)))
