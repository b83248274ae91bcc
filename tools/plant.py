#!/usr/bin/env python3
"""plant.py SPECDIR...: turn tools-independent specs into /verif/seeded/<id>/.
A spec directory holds spec.json {id, property, needs, what_it_breaks, edits:[[file, old, new]...]}
and the demo files. The patch is made and tried in a scratch clone under /tmp."""
import sys, json, os, subprocess, shutil, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, **k)
for d in sys.argv[1:]:
    spec = json.load(open(d + '/spec.json'))
    out = '/verif/seeded/' + spec['id']
    tmp = tempfile.mkdtemp(prefix='plant')
    sh(f'git clone -q /repo {tmp}/r', check=True)
    for f, old, new in spec['edits']:
        p = f'{tmp}/r/{f}'; s = open(p).read()
        n = s.count(old)
        if n != 1: sys.exit(f"{spec['id']}: {n} matches in {f} for:\n{old}")
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', tmp + '/r', 'diff'], text=True)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
    for f in os.listdir(d):
        if f != 'spec.json': shutil.copy(d + '/' + f, out + '/' + f)
    if spec.get('kit'):
        os.makedirs(out + '/kit', exist_ok=True)
        shutil.copy('/verif/tools/kit/demo.sh', out + '/demo.sh')
        for f in ('demo.h', 'pbt_stub.cc'): shutil.copy('/verif/tools/kit/' + f, out + '/kit/' + f)
        for f in ('pbt.h', 'detsched.h', 'detsched.cc', 'simfs.h', 'simsys.h', 'simgen.h', 'simrun.h', 'treesearch.h'):
            shutil.copy('/verif/harness/' + f, out + '/kit/' + f)
    # lines that only our own commits added do not count
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    for f in sorted({e[0] for e in spec['edits']}):
        own = {l.split(')', 1)[1][1:] for l in subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', f], text=True).splitlines() if not base.startswith(l.split()[0].lstrip('^'))}
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in own: print('  OUR OWN LINE:', l)
    shutil.rmtree(tmp)
    print('planted', spec['id'])
