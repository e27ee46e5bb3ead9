#!/usr/bin/env python3
"""Makes planted bugs (seeded/<id>/) from the definitions in a Python file and confirms them in a scratch copy.
usage: seed.py defs.py [id..]   each definition: B(id, property, needs, breaks, edits=[(file, old, new)], demo, nomf='', ndf='')
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/s'
bugs = []
def B(id, property, needs, breaks, edits, demo, nomf='', ndf=''):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, nomf=nomf, ndf=ndf))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
def clean(): sh('git checkout -q -- .', cwd=S + '/repo')
for b in bugs:
    if only and b['id'] not in only: continue
    clean()
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    ok = True
    for f, old, new in b['edits']:
        p = f'{S}/repo/{f}'
        s = open(p).read()
        if s.count(old) != 1: print(b['id'], 'EDIT MATCHES', s.count(old), f, old[:60]); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=S + '/repo').stdout)
    open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    t = open(V + '/tools/demo.sh.in').read().replace('@ID@', b['id']).replace('@NOMF@', b['nomf']).replace('@NDF@', b['ndf'])
    open(d + '/demo.sh', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    with_bug = sh(f'{d}/demo.sh', cwd=S + '/repo')
    r = sh(f'bash {S}/test.sh {S}/out.json')
    try:
        o = json.load(open(S + '/out.json'))
        passed = set(o.get('passed', o.get('pass', [])))
        missing = [x for x in base if x not in passed]
    except Exception as e: missing = [str(e)] + r.stdout.splitlines()[-5:]
    clean()
    without = sh(f'{d}/demo.sh', cwd=S + '/repo')
    good = with_bug.returncode != 0 and without.returncode == 0 and not missing
    print(b['id'], 'GOOD' if good else 'BAD', 'demo with bug', with_bug.returncode, 'without', without.returncode, 'tests lost', missing[:4], flush=True)
    if not good:
        if with_bug.returncode == 0 or 'error' in with_bug.stdout: print(with_bug.stdout[-1500:])
        if without.returncode: print(without.stdout[-1500:])
    else: print('   ', [l for l in with_bug.stdout.splitlines() if l.strip()][-3:])
