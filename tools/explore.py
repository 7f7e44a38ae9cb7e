#!/usr/bin/env python3
"""Developer aid: runs seeds of one scenario on all CPUs and tabulates outcomes.

  explore.py GROUP SCENARIO RUNS [SEED0]
"""
import collections
import os
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'sim'))
import simcheck  # pylint: disable=g-import-not-at-top
from driver import runner

g, scn, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
s0 = int(sys.argv[4]) if len(sys.argv) > 4 else 1
cmd, env = simcheck.command_for(g)
seen = collections.OrderedDict()


def known(scn_, r):
  k = (r['status'], r.get('cls'), ''.join(c for c in r.get('msg', '')[:int(os.environ.get('KEYLEN', '60'))]))
  seen.setdefault(k, []).append(r)
  return k


orig = runner.Stats.add
t0 = time.time()
s = runner.Search([(cmd, env, scn, n)], s0, time.time() + 3000, known)
rec = {}
olist = s.stats.add


def add(sc, r):
  rec.setdefault('last', r)
  olist(sc, r)


s.run()
st = s.stats
print('%d runs in %.1f s (%.0f/s), nontrivial %d, schedules %d, steps %d, switches %d, io %d' %
      (st.runs, s.wall, st.runs / s.wall, len(st.nontrivial), len(st.sched), st.sums['nsync'] + st.sums['nmem'],
       st.sums['nswitch'], st.sums['nio']))
print(dict(st.status), dict(st.fired), dict(st.probes))
for e in s.errors[:3]:
  print('ERROR', e)
for k, rs in sorted(seen.items(), key=lambda x: -len(x[1])):
  print(len(rs), k, 'seed %d |' % min(r['seed'] for r in rs), rs[0].get('msg', '')[:600])
