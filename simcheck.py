#!/usr/bin/env python3
"""Entry point of the checks: see DESIGN.md.

  simcheck.py setup
  simcheck.py check Pxx [--thorough] [--seconds N] [--runs-factor F]
  simcheck.py replay FILE
  simcheck.py one GROUP SCENARIO SEED       (developer aid: one verbose run)
"""
import argparse
import json
import os
import re
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
sys.dont_write_bytecode = True
from driver import build  # pylint: disable=g-import-not-at-top
from driver import runner
import registry

VENV_PY = '/opt/venv/bin/python'


class CheckError(Exception):
  pass


def command_for(group):
  """Builds a group and returns (argv, env) of its command server."""
  if group in registry.CXX_GROUPS:
    g = registry.CXX_GROUPS[group]
    exe = build.build(group, g['patterns'], g['harness'], g.get('mains', ()), g.get('libs', ()), g.get('protos', True))
    return ['setarch', '-R', exe], g.get('env', {})
  g = registry.PY_GROUPS[group]
  from driver import pybuild
  return pybuild.command(group, g)


def known_findings(prop):
  out = []
  p = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      if line.startswith('finding: '):
        f = json.loads(line[len('finding: '):])
        if f['property'] == prop:
          out.append(f)
  return out


def matcher(findings):

  def known(scn, r):
    for i, f in enumerate(findings):
      if re.fullmatch(f['scenario'], scn) and f['cls'] == r.get('cls') and re.search(f['msg'], r.get('msg', '')):
        return i
    return None

  return known


def check(prop, args):
  t0 = time.time()
  c = registry.CHECKS[prop]
  thorough = args.thorough
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  seed0 = (seed % 1000003) * 100000000
  cmds = {}
  for g, _, _ in c['scenarios']:
    if g not in cmds:
      cmds[g] = command_for(g)
  t_build = time.time() - t0
  findings = known_findings(prop)
  known = matcher(findings)
  jobs = [(cmds[g][0], cmds[g][1], s, max(1, int(n * args.runs_factor))) for g, s, n in c['scenarios']]
  limit = args.seconds or (float(os.environ.get('VERIF_THOROUGH_SECONDS', '1800')) if thorough else 330.0)
  s = runner.Search(jobs, seed0, time.time() + limit, known, endless=thorough).run()
  st = s.stats
  if s.errors and not s.bad:
    scn, n, r = s.errors[0]
    raise CheckError('simulator error in %s seed %d: %s' % (scn, n, r))
  # Every run must be a function of its seed: repeat the first ones in fresh
  # processes and compare the hash of everything that happened.
  repeated = 0
  if not s.bad:
    for k, (cmd, env, scn, _) in enumerate(jobs):
      w = runner.Worker(list(cmd), None, env)
      for i in range(3):
        h = s.hashes.get((k, seed0 + i))
        if h is None:
          continue
        r = w.seed(scn, seed0 + i)
        repeated += 1
        if r.get('hash') != h:
          w.close()
          raise CheckError('run %s seed %d is not repeatable (%s, then %s)' % (scn, seed0 + i, h, r))
      w.close()
  samples = []
  tmpd = tempfile.mkdtemp(prefix='simcheck')
  try:
    if not s.bad:
      for k, (cmd, env, scn, _) in enumerate(jobs):
        w = runner.Worker(list(cmd), None, env)
        tr = os.path.join(tmpd, 't')
        r = w.seed(scn, seed0 + 1, tr)
        w.close()
        if os.path.exists(tr):
          text = open(tr).read()
          samples.append(dict(scenario=scn, seed=seed0 + 1, result=r['status'], hash=r.get('hash'),
                              threads=r.get('nthreads'), switches=r.get('nswitch'),
                              faults=r.get('fired'), trace=text[:600] + ('...' if len(text) > 600 else '')))
    ev = evidence(prop, c, seed, thorough, s, samples, t0, t_build, repeated, findings)
    if not s.bad:
      for i, f in enumerate(findings):
        print('KNOWN-FINDING: property=%s %s (met in %d runs)' % (prop, f['what'], s.known_hits.get(i, 0)))
      print('%s: held in %d simulated runs (%d distinct non-trivial), %.0f s, %s' %
            (prop, st.runs, len(st.nontrivial), time.time() - t0,
             ', '.join('%s=%d' % kv for kv in sorted(st.fired.items())) or 'no fault kinds in play'))
      write_evidence(prop, ev)
      return 0
    path, info = report(prop, s, jobs, c, known, tmpd)
    ev['violations'] = 1
    ev['coverage']['violation'] = info
    ev['coverage']['samples'] = [info]
    ev['wall_s'] = time.time() - t0
    write_evidence(prop, ev)
    print('%s: %s in scenario %s: %s' % (prop, info['class'], info['scenario'], info['message']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  finally:
    shutil.rmtree(tmpd, ignore_errors=True)


def evidence(prop, c, seed, thorough, s, samples, t0, t_build, repeated, findings):
  st = s.stats
  wall = time.time() - t0
  per = {k: dict(v) for k, v in st.per.items()}
  cov = dict(
      evaluations=st.runs, distinct_nontrivial=len(st.nontrivial), rule=c['rule'], samples=samples or [dict(none=True)],
      runs_per_hour=int(st.runs / max(s.wall, 1e-3) * 3600), search_wall_s=round(s.wall, 2), build_wall_s=round(t_build, 2),
      simulated_seconds=round(st.sums['sim_ns'] / 1e9, 3),
      faults_injected=dict(st.fired), distinct_schedules=len(st.sched),
      distinct_measure='hash over the sequence of (scheduling point, chosen thread) of a run; non-trivial runs are '
                       'counted by the hash of workload, schedule and faults together',
      scheduling_points=st.sums['nsync'], context_switches=st.sums['nswitch'],
      instrumented_accesses=st.sums['nmem'], io_calls=st.sums['nio'], clock_reads=st.sums['nclock'],
      threads_created=st.sums['nthreads'], ended=dict(st.status), per_scenario=per, conditions_reached=dict(st.probes),
      repeatability_reruns=repeated, real_components=c['real'], stub_components=c['stub'],
      known_findings_met={findings[i]['what']: n for i, n in s.known_hits.items()})
  return dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level='exploration', coverage=cov,
              assumptions=c.get('assumptions', registry.ASSUMPTIONS), wall_s=round(wall, 2), violations=0)


def write_evidence(prop, ev):
  d = os.path.join(VERIF, 'evidence')
  os.makedirs(d, exist_ok=True)
  p = os.path.join(d, prop + '.json')
  with open(p + '.tmp', 'w') as f:
    json.dump(ev, f, indent=1, ensure_ascii=True)
  os.replace(p + '.tmp', p)


def report(prop, s, jobs, c, known, tmpd):
  """Minimises the first reproducible violation and writes its replay file."""
  last = None
  for scn, n, r0, k in s.bad:
    cmd, env = list(jobs[k][0]), jobs[k][1]
    group = [g for g, sc, _ in c['scenarios'] if sc == scn][0]
    w = runner.Worker(cmd, None, env)
    tr = os.path.join(tmpd, 'trace')
    r = w.seed(scn, n, tr)
    if runner.key_of(r) != runner.key_of(r0):
      last = 'run %s seed %d gave %s and then %s' % (scn, n, r0, r)
      w.close()
      continue
    info = dict(scenario=scn, seed=n, **{'class': r.get('cls') or r['status']}, message=r.get('msg', ''), hash=r.get('hash'))
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s-%d.trace' % (prop, scn, n))
    head = ['property %s' % prop, 'group %s' % group, 'seed %d' % n]
    if r['status'] == 'violation' and os.path.exists(tr):
      t = runner.load_trace(tr)
      key = runner.key_of(r)
      size0 = {x: len(t[x]) for x in 'WSMFC'}
      m, tries = runner.minimise(w, t, lambda x: runner.key_of(x) == key and known(scn, x) is None, 60)
      mp, mq = os.path.join(tmpd, 'min'), os.path.join(tmpd, 'canon')
      runner.save_trace(m, mp)
      w.close()
      w = runner.Worker(cmd, None, env)
      rr = w.replay(mp, trace=mq)
      best, final = mp, rr
      if os.path.exists(mq):
        r2 = w.replay(mq)
        if runner.key_of(r2) == key:
          best, final = mq, r2
      if runner.key_of(final) != key:
        best, final = tr, w.replay(tr)
      t = runner.load_trace(best)
      info.update(message=final.get('msg', ''), hash=final.get('hash'), minimised_from=size0,
                  minimised_to={x: len(t[x]) for x in 'WSMFC'}, minimisation_replays=tries, faults=final.get('fired'))
      runner.save_trace(t, out, head + ['class %s' % info['class'], 'hash %s' % info['hash'], 'message ' + info['message']])
      # Confirm: the file, in a fresh process, gives exactly the same run.
      w.close()
      w = runner.Worker(cmd, None, env)
      r3 = w.replay(out)
      w.close()
      if runner.key_of(r3) != key or r3.get('hash') != info['hash']:
        last = 'replay of %s gives %s, expected %s' % (out, r3, info)
        continue
    else:
      # No trace survives a dying or hanging run: the seed is the replay.
      if r['status'] == 'timeout':
        r = w.seed(scn, n, wall=2 * runner.WALL_MS)
        if r['status'] != 'timeout':
          last = 'run %s seed %d hung once only' % (scn, n)
          w.close()
          continue
      w.close()
      with open(out, 'w') as f:
        f.write('simtrace-seed 1\nscenario %s\nseed %d\n' % (scn, n))
        f.write(''.join('# %s\n' % h for h in head + ['class %s' % info['class'], 'message ' + info['message']]))
    info['replay'] = out
    return out, info
  raise CheckError('a violation was seen but could not be repeated: %s' % last)


def replay(path, args):
  meta, seed_only, scn = {}, False, None
  for line in open(path):
    if line.startswith('# '):
      k, _, v = line[2:].rstrip('\n').partition(' ')
      meta[k] = v
    if line.startswith('simtrace-seed'):
      seed_only = True
    if line.startswith('scenario '):
      scn = line.split()[1]
  cmd, env = command_for(meta['group'])
  import subprocess
  e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}
  e.update(env)
  line = ('seed %s %s %d -' % (scn, meta['seed'], runner.WALL_MS) if seed_only else
          'replay %s %d %s -' % (os.path.abspath(path), runner.WALL_MS, '-' if args.brief else 'v'))
  p = subprocess.run(cmd, input=line + '\n', stdout=subprocess.PIPE, stderr=None, text=True, env=e, cwd='/')
  lines = p.stdout.strip().split('\n')
  r = json.loads(lines[-1])
  for l in lines[:-1]:
    print(l)
  same = (r.get('cls') or r['status']) == meta.get('class') and (seed_only or r.get('hash') == meta.get('hash'))
  print('status=%s class=%s hash=%s message=%s' % (r['status'], r.get('cls'), r.get('hash'), r.get('msg')))
  print('expected class=%s hash=%s: %s' % (meta.get('class'), meta.get('hash'), 'reproduced' if same else 'NOT reproduced'))
  if same:
    print('VIOLATION property=%s replay=%s' % (meta.get('property'), path))
  return 1 if same else 0


def one(args):
  cmd, env = command_for(args.group)
  tr = '/tmp/simone.%d' % os.getpid()
  w = runner.Worker(cmd, None, env)
  r = w.seed(args.scenario, args.seed, tr)
  w.close()
  print(json.dumps(r, indent=1))
  if os.path.exists(tr):
    import subprocess
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}
    e.update(env)
    p = subprocess.run(cmd, input='replay %s %d v -\n' % (tr, runner.WALL_MS), stdout=subprocess.PIPE, text=True, env=e, cwd='/')
    print(p.stdout)
    os.unlink(tr)
  elif args.group in registry.PY_GROUPS:
    import subprocess
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}
    e.update(env)
    p = subprocess.run(cmd, input='seed %s %d %d - v\n' % (args.scenario, args.seed, runner.WALL_MS), stdout=subprocess.PIPE, text=True,
                       env=e, cwd='/')
    print(p.stdout)


def main():
  ap = argparse.ArgumentParser()
  sub = ap.add_subparsers(dest='op', required=True)
  sub.add_parser('setup')
  c = sub.add_parser('check')
  c.add_argument('property')
  c.add_argument('--thorough', action='store_true')
  c.add_argument('--seconds', type=float, default=0)
  c.add_argument('--runs-factor', type=float, default=1)
  r = sub.add_parser('replay')
  r.add_argument('file')
  r.add_argument('--brief', action='store_true')
  o = sub.add_parser('one')
  o.add_argument('group')
  o.add_argument('scenario')
  o.add_argument('seed', type=int)
  a = ap.parse_args()
  try:
    if a.op == 'setup':
      # Nothing built here survives into the checks; make sure it can be built.
      for t in ('clang++', 'protoc', 'setarch', VENV_PY):
        if shutil.which(t) is None:
          print('missing tool: ' + t)
          return 1
      command_for('pool')
      return 0
    if a.op == 'check':
      if os.environ.get('VERIF_TIER') == 'thorough':
        a.thorough = True
      return check(a.property, a)
    if a.op == 'replay':
      return replay(a.file, a)
    one(a)
    return 0
  except (CheckError, build.BuildError) as e:
    print('ERROR (no answer): %s' % e)
    return 2


if __name__ == '__main__':
  sys.exit(main())
