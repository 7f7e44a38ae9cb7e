#!/usr/bin/env python3
"""Developer aid: turns edits into a planted bug under /verif/seeded.

  plant.py ID PROPERTY FILE... < spec   (spec: JSON with edits, needs, breaks, files)

spec = {"edits": [[path, old, new], ...], "needs": str, "breaks": str,
        "demo": {name: content, ...}}      (demo must have demo.sh)
Checks that every `old` occurs exactly once, writes patch.diff, demo files and
meta.json, then runs the demonstration in a clean and in a patched copy.
Reads specs from python files: plant.py SPECFILE [ID...]; the file defines BUGS.
"""
import json
import os
import runpy
import shutil
import stat
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def sh(cmd, cwd=None, **kw):
  return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def main():
  bugs = runpy.run_path(sys.argv[1])['BUGS']
  ids = sys.argv[2:] or list(bugs)
  bad = 0
  for bid in ids:
    b = bugs[bid]
    wt = '/tmp/wt/plant-' + bid
    if os.path.exists(wt):
      shutil.rmtree(wt)
    os.makedirs(wt)
    sh(['bash', '-c', 'cd ' + REPO + ' && git archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && '
        'git -c user.name=x -c user.email=x@x commit -qm base' % (wt, wt)])
    err = None
    for path, old, new in b['edits']:
      p = os.path.join(wt, path)
      s = open(p).read()
      if s.count(old) != 1:
        err = '%s: %d occurrences of %r' % (path, s.count(old), old[:60])
        break
      open(p, 'w').write(s.replace(old, new))
    if err:
      print(bid, 'ERROR', err)
      bad += 1
      continue
    diff = sh(['git', 'diff'], cwd=wt).stdout
    d = os.path.join(VERIF, 'seeded', bid)
    if os.path.exists(d):
      shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    for n, c in b['demo'].items():
      os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
      open(os.path.join(d, n), 'w').write(c)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    # The demonstration runs with cwd /repo; use the real tree for "clean" and
    # apply the patch to it for "patched", undoing it straight afterwards.
    away = '/tmp/wt/demo-' + bid
    if os.path.exists(away):
      shutil.rmtree(away)
    shutil.copytree(d, away)
    r0 = sh(['bash', away + '/demo.sh'], cwd=REPO)
    a = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=REPO)
    try:
      r1 = sh(['bash', away + '/demo.sh'], cwd=REPO)
    finally:
      sh(['git', 'checkout', '--', '.'], cwd=REPO)
    ok = r0.returncode == 0 and a.returncode == 0 and r1.returncode != 0
    print('%s: clean %d, apply %d, patched %d %s' % (bid, r0.returncode, a.returncode, r1.returncode, 'ok' if ok else 'BAD'))
    if not ok:
      bad += 1
      print(r0.stdout[-400:], a.stdout, '--- patched', r1.stdout[-300:])
    shutil.rmtree(away)
    shutil.rmtree(wt)
  return bad


sys.exit(main())
