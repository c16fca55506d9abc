#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [--scale X] [--sub NAME] [-v]

Builds the harness of one property from /repo's current working tree, runs its
generated-input search, rewrites /verif/evidence/<id>.json and reports.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; else: error.
"""
import json, os, subprocess, sys, time, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS

VERIF = B.VERIF


def known_findings(prop):
    """finding lines: 'finding: property=<id> key=<key> <what fails>'"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                f = dict(x.split('=', 1) for x in l.split()[1:3])
                if f.get('property') == prop:
                    out[f['key']] = l
    return out


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    opt = {}
    flags = set()
    while args:
        a = args.pop(0)
        if a in ('-v',):
            flags.add(a)
        else:
            opt[a] = args.pop(0)
    seed = int(os.environ.get('VERIF_SEED') or '1')
    tier = opt.get('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    known = known_findings(prop)
    results = []
    tb = 0.0
    bins = []
    for part in spec['parts']:
        tb0 = time.time()
        srcs = [os.path.join(VERIF, 'harness', s) for s in ['vh.cc'] + part['srcs']]
        bins.append((part, B.build(prop.lower() + '_' + part.get('cfg', 'opt'), srcs, part['libs'],
                                   part.get('cfg', 'opt'), part.get('defs', ()))))
        tb += time.time() - tb0
    env = dict(os.environ)
    env.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:'
                            'max_allocation_size_mb=4096:detect_stack_use_after_return=0:'
                            'symbolize=%d' % (1 if '-v' in flags else 0),
               UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:abort_on_error=1')
    if '--replay' in opt:
        rf = os.path.abspath(opt['--replay'])
        rc = 0
        for part, b in bins:
            r = subprocess.run([b, '--replay', rf, '--tier', tier] + (['-v'] if '-v' in flags else []), env=env)
            if r.returncode == 1:
                rc = 1
        if rc == 1:
            print('VIOLATION property=%s replay=%s' % (prop, rf))
        return rc
    tmp = tempfile.mkdtemp(prefix='vhchk_')
    try:
        kf = os.path.join(tmp, 'known')
        with open(kf, 'w') as f:
            f.write('\n'.join(known) + '\n')
        budget = float(opt.get('--budget') or (spec.get('quick_budget', 240) if tier == 'quick'
                                               else spec.get('thorough_budget', 3600)))
        for part, b in bins:
            out = os.path.join(tmp, 'out.json')
            if os.path.exists(out):
                os.remove(out)
            cmd = [b, '--seed', str(seed), '--tier', tier, '--out', out, '--known', kf, '--replay-dir', replay_dir,
                   '--jobs', os.environ.get('VERIF_JOBS', '8'),
                   '--budget', str(budget / len(bins))]
            for k in ('--sub', '--scale', '--shrink'):
                if k in opt:
                    cmd += [k, opt[k]]
            r = subprocess.run(cmd + (['-v'] if '-v' in flags else []), env=env)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print('ERROR: harness for %s ended with %d' % (prop, r.returncode))
                return 3
            results.append(json.load(open(out)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(evaluations=sum(r['evaluations'] for r in results),
               distinct_nontrivial=sum(r['distinct_nontrivial'] for r in results),
               rule=' | '.join(r['rule'] for r in results),
               samples=[s for r in results for s in r['samples']],
               subchecks={k: v for r in results for k, v in r['subchecks'].items()},
               build_s=round(tb, 1))
    kn = [k for r in results for k in r['known']]
    cov['known_findings_hit'] = kn
    viol = [v for r in results for v in r['violations']]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=[a for r in results for a in r['assumptions']],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    tmpf = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(VERIF, 'evidence', prop + '.json'))
    for key, line in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, line.split('key=', 1)[1]))
    print('%s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)' % (
        prop, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, tb))
    for v in viol:
        print('  sub=%s key=%s\n  %s\n  case: %s' % (v['sub'], v['key'], v['msg'][:1500], v['case'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if viol:
        return 1
    # a run that explored nothing is not a pass
    for r in results:
        for k, s in r['subchecks'].items():
            if s['evaluations'] == 0 and '--sub' not in opt:
                print('ERROR: sub-check %s of %s explored nothing' % (k, prop))
                return 4
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except B.BuildError as e:
        print('ERROR: build failed\n' + str(e)[:4000])
        sys.exit(5)
