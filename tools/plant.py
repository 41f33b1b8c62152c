#!/usr/bin/env python3
"""plant.py SPEC.py...: writes seeded/<id>/ from a spec that calls plant(id, prop, edits, needs, breaks, test)."""
import json, os, subprocess, sys, shutil
def plant(id, prop, edits, needs, breaks, test, imports=()):
    w = '/tmp/plantwork'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    for f, _, _ in edits:
        if '/' not in f: subprocess.call(['gofmt', '-l', os.path.join(w, f)])
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=w, text=True))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
    open(d + '/zdemo_test.go', 'w').write(test)
    subprocess.call(['gofmt', '-w', d + '/zdemo_test.go'])
    shutil.rmtree(w)
    print('planted', id)
for s in sys.argv[1:]: exec(open(s).read())
