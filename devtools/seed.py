#!/usr/bin/env python3
"""seed.py make ID PROPERTY 'sources' 'needs' 'what' [flags]  : turn /repo's working-tree diff into seeded/ID (demo.cc must exist there)
   seed.py verify ID [nocheck]                     : confirm and run the check"""
import json, os, shutil, subprocess, sys
V = '/verif'; R = os.environ.get('VERIF_REPO', '/repo')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def verify(i, check=True):
    d = f'{V}/seeded/{i}'; m = json.load(open(d + '/meta.json'))
    sh(f'git -C {R} checkout -- .')
    a = sh(f'cd {R} && timeout 300 bash {d}/demo.sh')
    print(i, 'demo clean rc', a.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '')
    r = sh(f'git -C {R} apply {d}/patch.diff')
    if r.returncode: print('apply failed', r.stderr); return
    try:
        if R == '/repo':
          t = sh('bash /opt/vp/test.sh /tmp/seed_out.json'); o = json.load(open('/tmp/seed_out.json'))
          st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
          print('  tests missing:', st - set(o['passed']))
        b = sh(f'cd {R} && timeout 300 bash {d}/demo.sh')
        print('  demo patched rc', b.returncode, (b.stdout + b.stderr)[-300:].strip())
        if check:
            c = sh(f"timeout 900 python3-vt {V}/check.py {m['property']} --tier quick")
            print('  check rc', c.returncode, '\n  '.join(c.stdout.strip().split('\n')[-4:])[-900:])
    finally:
        sh(f'git -C {R} checkout -- .')
if sys.argv[1] == 'make':
    i, prop, srcs, needs, what = sys.argv[2:7]
    flags = sys.argv[7] if len(sys.argv) > 7 else ''
    d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
    p = sh(f'git -C {R} diff').stdout
    assert p and os.path.exists(d + '/demo.cc')
    open(d + '/patch.diff', 'w').write(p)
    shutil.copytree(V + '/shim', d + '/shim', dirs_exist_ok=True)
    t = open(V + '/devtools/demo.sh.tmpl').read().replace('@SRCS@', srcs).replace('@FLAGS@', flags)
    open(d + '/demo.sh', 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    verify(i)
else:
    ids = sys.argv[2:]
    if ids == ['all']: ids = sorted(os.listdir(V + '/seeded'))
    for i in ids: verify(i)
