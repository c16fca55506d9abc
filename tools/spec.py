#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/spec.py` rewrites both."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, na=None):
    S.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, na=na))


exec(open(os.path.join(V, 'tools', 'spec_props.py')).read())


def main():
    from props import PROPS
    ids = [p['id'] for p in S]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in S:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['state']:
                d['anchors']['state'] = p['state']
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in S:
        if p['na'] or p['id'] not in PROPS:
            na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
            continue
        checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py ' + p['id'],
                           thorough_cmd='python3 tools/check.py ' + p['id'] + ' --tier thorough', evidence_file='evidence/%s.json' % p['id'],
                           technique=p['technique'], level='exploration', level_note=p['note']))
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             hooks=dict(guard='ERICW_VERIF_HOOKS', enable='tools/build.py passes -DERICW_VERIF_HOOKS; no source in /repo uses it (no hook was needed)', source_commits=[]),
             checks=checks, not_applicable=na,
             notes='Every check builds its harness and the /repo sources it links from the current working tree (tools/build.py), runs generated cases in forked workers, shrinks a failing case and replays it three times before reporting. Replay: python3 tools/check.py <id> --replay <file>.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(S), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
