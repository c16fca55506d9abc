#!/usr/bin/env python3
"""Random one-line mutants of the sources, to find what the checks miss (never used by a check).
automut.py SEED COUNT [FILE-SUBSTRING]    prints one line per mutant: caught / MISSED with its diff"""
import os, sys, re, random, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.environ.get('MUTREPO', '/tmp/automutrepo')
FILES = {
    'common/bspfile.cc': 'C01,C02,C16,C03', 'common/bspfile_q1.cc': 'C01,C02', 'common/bspfile_q2.cc': 'C01,C02,C03', 'common/bspfile_generic.cc': 'C01,C02,C17',
    'common/bspfile_common.cc': 'C01,C03,C16', 'common/bspxfile.cc': 'C01,C03,C17,C30', 'common/bsputils.cc': 'C05,C04,C06,C17', 'common/bspinfo.cc': 'C17',
    'common/cmdlib.cc': 'C35,C07', 'common/decompile.cc': 'C18', 'common/entdata.cc': 'C07', 'common/fs.cc': 'C12', 'common/imglib.cc': 'C13,C14,C17',
    'common/mapfile.cc': 'C08,C09', 'common/mathlib.cc': 'C34', 'common/parser.cc': 'C10', 'common/prtfile.cc': 'C19', 'common/qvec.cc': 'C34', 'common/settings.cc': 'C11',
    'include/common/polylib.hh': 'C15', 'include/common/qvec.hh': 'C34', 'include/common/cmdlib.hh': 'C35', 'include/common/settings.hh': 'C11', 'include/common/aabb.hh': 'C34',
    'include/vis/leafbits.hh': 'C20,C22', 'vis/flow.cc': 'C20,C21', 'vis/vis.cc': 'C20,C21,C22', 'vis/state.cc': 'C21', 'vis/soundpvs.cc': 'C22',
    'maputil/maputil.cc': 'C33', 'bspinfo/main.cc': 'C17', 'light/phong.cc': 'C29', 'light/lightgrid.cc': 'C30', 'light/surflight.cc': 'C31', 'light/write.cc': 'C27,C28,C31',
    'light/trace.cc': 'C28', 'light/ltface.cc': 'C28,C31,C30,C27', 'light/entities.cc': 'C28,C31', 'light/bounce.cc': 'C31', 'bsputil/bsputil.cc': 'C32',
    'qbsp/brushbsp.cc': 'C23,C24', 'qbsp/brush.cc': 'C23,C24', 'qbsp/portals.cc': 'C25,C24', 'qbsp/faces.cc': 'C24,C36', 'qbsp/writebsp.cc': 'C24,C36,C23,C25', 'qbsp/prtfile.cc': 'C25',
    'qbsp/outside.cc': 'C26,C23', 'qbsp/tjunc.cc': 'C24', 'qbsp/merge.cc': 'C24', 'qbsp/csg.cc': 'C24', 'qbsp/tree.cc': 'C24,C26', 'qbsp/map.cc': 'C36,C23,C24,C25,C29', 'qbsp/qbsp.cc': 'C26,C23,C24',
}
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'),
       (r'\b255\b', '254'), (r'\+\+', '--'), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' \|= ', ' = '), (r' & ', ' | '), (r'\(!', '('), (r'\bmins\b', 'maxs'), (r'\bmaxs\b', 'mins'), (r'\.front', '.back'), (r'\.back', '.front'),
       (r'std::min\(', 'std::max('), (r'std::max\(', 'std::min('), (r'floor\(', 'ceil('), (r'ceil\(', 'floor('), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'^(\s+)[a-zA-Z_][^;(){}]* = [^;]*;$', r'\1;'), (r'^(\s+)[a-zA-Z_][\w.>-]*\([^;]*\);$', r'\1;')]


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


rnd = random.Random(int(sys.argv[1]))
if not os.path.isdir(C):
    sh('git clone -q /repo ' + C)
sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % C)
want = sys.argv[3:] or ['']
files = [f for f in FILES if any(w in f for w in want)]
src = {f: open(os.path.join(C, f)).read().split('\n') for f in files}
wt = [min(len(src[f]), 700) * (0.25 if f.startswith('include') else 1) for f in files]
done = 0
while done < int(sys.argv[2]):
    f = rnd.choices(files, wt)[0]
    L = src[f]
    i = rnd.randrange(len(L))
    l = L[i]
    s = l.strip()
    before = '\n'.join(L[:i])
    if before.count('/*') > before.count('*/') or l.find('//') > 0:
        continue
    if not s or s.startswith(('//', '*', '/*', '#', 'using', 'case ', 'struct', 'namespace')) or any(w in l for w in ('logging::', 'fmt::', 'FError', 'Error(', 'Q_assert', 'static_assert', 'constexpr', 'stats.', 'clock', 'virtual', 'setting_group', 'template', 'endianness')):
        continue
    cand = [(a, b) for a, b in OPS if re.search(a, l)]
    if not cand:
        continue
    a, b = rnd.choice(cand)
    ms = list(re.finditer(a, l))
    m = rnd.choice(ms)
    n = l[:m.start()] + m.expand(b) + l[m.end():]
    if n == l:
        continue
    open(os.path.join(C, f), 'w').write('\n'.join(L[:i] + [n] + L[i + 1:]))
    res = []
    for q in FILES[f].split(','):
        env = dict(os.environ, VERIF_REPO=C, VERIF_BUILD=os.environ.get('MUTBUILD', '/tmp/automutbuild'), VERIF_SEED='1', VERIF_TIER='quick')
        try:
            r = subprocess.run(['python3', V + '/tools/check.py', q], env=env, capture_output=True, text=True, cwd=V, timeout=600)
        except subprocess.TimeoutExpired:
            res.append(q + ' TIMEOUT')
            break
        if r.returncode == 1:
            k = [x.strip()[:60] for x in r.stdout.splitlines() if 'key=' in x]
            res.append('%s caught %s' % (q, k[:1]))
            break
        if r.returncode != 0:
            res.append('%s rc%d' % (q, r.returncode))
            break
        res.append(q + ' missed')
    open(os.path.join(C, f), 'w').write('\n'.join(L))
    st = ' '.join(res)
    if 'rc' in st and 'error' in (r.stdout + r.stderr):
        continue  # does not compile
    done += 1
    print('MISSED' if 'caught' not in st and 'TIMEOUT' not in st else 'ok', '%s:%d' % (f, i + 1), '|', s[:150], '=>', n.strip()[:150], '|', st, flush=True)
