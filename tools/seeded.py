#!/usr/bin/env python3
"""seeded.py [ID...]: applies each change of /verif/seeded to a scratch copy of /repo and runs the quick check of its property
(all checks whose number matches --all). Prints one line per change. Not used by any check."""
import os, sys, subprocess, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(b):
    d = '/tmp/seeded-run/' + b
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff' % (d, d, V, b), shell=True, check=True)
    p = json.load(open('%s/seeded/%s/meta.json' % (V, b)))['property']
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD_TAG='-s' + b, VERIF_TIER='quick')
    r = subprocess.run([V + '/bin/check', p, '--tier', 'quick', '--jobs', '3'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
    for x in ('build', 'out'):
        shutil.rmtree('%s/%s/%s-s%s' % (V, x, p, b), ignore_errors=True)
    try: os.remove('%s/evidence/%s-s%s.json' % (V, p, b))
    except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    o = r.stdout.strip().split('\n')
    print('%-24s %s %-8s %s' % (b, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), o[-2][:150] if r.returncode == 1 and len(o) > 1 else o[-1][:150]), flush=True)
    return r.returncode
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(3) as ex:
    rc = list(ex.map(run, ids))
print(len(rc), 'changes,', rc.count(1), 'caught,', rc.count(0), 'missed,', len(rc) - rc.count(0) - rc.count(1), 'errors')
