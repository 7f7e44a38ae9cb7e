#!/usr/bin/env python3
"""Developer aid: runs the check of each planted bug against a patched copy."""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
for b in ids:
  d = os.path.join(VERIF, 'seeded', b)
  prop = json.load(open(d + '/meta.json'))['property']
  wt = '/tmp/wt/mut-' + b
  shutil.rmtree(wt, ignore_errors=True)
  os.makedirs(wt)
  subprocess.check_call('cd /repo && git archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/patch.diff' % (wt, wt, d), shell=True)
  t = time.time()
  r = subprocess.run([VERIF + '/simcheck.py', 'check', prop], env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, text=True)
  v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or l.startswith(prop + ':') or l.startswith('ERROR')]
  print('%-24s %s rc=%d %.0fs %s' % (b, prop, r.returncode, time.time() - t, ' | '.join(v)[:260]), flush=True)
  shutil.rmtree(wt)
