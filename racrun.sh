#!/bin/bash
# developer helper: build and run one run-time checker.  racrun.sh <slug> [args]
slug=$1; shift
python3-vt - "$slug" "$@" <<'P'
import sys, tempfile, shutil
sys.path.insert(0, '/verif')
import check
wd = '/tmp/rac_%s' % sys.argv[1]
import os; os.makedirs(wd, exist_ok=True)
exe, err = check.rac_build(sys.argv[1], wd)
print(err or exe)
if exe:
    r = check.rac_run(exe, wd, float(os.environ.get('F', '1')), seed=os.environ.get('SEED'))
    print(r['out'][-5000:], r.get('err', '')[-1500:], 'rc', r['rc'])
P
