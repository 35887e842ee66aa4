#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
d = runpy.run_path(os.path.join(HERE, 'props.py'))
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in d['PROPS']:
        assert len(p['title']) <= 80, p['id']
        row = dict(id=p['id'], title=p['title'], statement=p['statement'],
                   quantifier=dict(over=p['over'], text=p['quant']),
                   why_tests_cant=p['why'],
                   anchors=dict(files=p['files'],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                                mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                observe_at=p.get('observe', []), hook_needed=None))
        f.write(json.dumps(row) + '\n')
        if p.get('na'):
            na.append(dict(property=p['id'], reason=p['na']))
        else:
            c = 'python3 run.py %s' % p['id']
            checks.append(dict(property=p['id'], quick_cmd=c + ' --tier quick',
                               thorough_cmd=c + ' --tier thorough',
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=p['technique'], level=p['level'], level_note=p['note']))
m = dict(version=1, setup_cmd="python3 -c \"import ast, sys; assert sys.version_info >= (3, 8)\"",
         checks=checks, not_applicable=na,
         notes="Static analysis only: every check parses /repo's current sources (Python and the two .pyx files) and decides its rules without running them.")
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
