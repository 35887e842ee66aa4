"""mkseed.py SPEC.py: write seeded/<id>/ from a spec file with a list SEEDS of
dict(id, prop, edits=[(file, old, new)], demo=python text, needs, breaks)"""
import os, sys, json, subprocess, difflib, runpy
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd = the repository
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1
exec python -W ignore "$(dirname "$0")/demo.py"
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    patch, new = '', {}
    for f, a, b in s['edits']:
        t = new.get(f) or open('/repo/' + f).read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        new[f] = t.replace(a, b)
    for f, t in new.items():
        o = open('/repo/' + f).read()
        for l in difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f):
            patch += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', d)
