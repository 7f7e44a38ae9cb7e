"""Seeded search over simulated runs, minimisation and replay."""
import collections
import json
import os
import queue
import select
import subprocess
import sys
import tempfile
import threading
import time

WALL_MS = 30000


class Worker:
  """One command server (a zygote that forks one process per run)."""

  def __init__(self, cmd, cpu=None, env=None):
    self.cmd, self.cpu, self.env = cmd, cpu, env
    self.p = None

  def start(self):
    cpu = self.cpu

    def pre():
      if cpu is not None:
        try:
          os.sched_setaffinity(0, {cpu})
        except OSError:
          pass

    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}
    e.update(self.env or {})
    self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                              preexec_fn=pre, env=e, cwd='/')

  def run(self, lines):
    """Sends commands, yields one result for each."""
    if self.p is None or self.p.poll() is not None:
      self.start()
    try:
      self.p.stdin.write(('\n'.join(lines) + '\n').encode())
      self.p.stdin.flush()
    except BrokenPipeError:
      pass
    for _ in lines:
      out = self.p.stdout.readline()
      if not out:
        rc = self.p.wait()
        self.p = None
        yield dict(status='harness', cls='worker', msg='the worker process ended (%s)' % rc)
        return
      try:
        yield json.loads(out)
      except ValueError:
        yield dict(status='harness', cls='worker', msg='bad answer: %r' % out[:300])

  def seed(self, scenario, n, trace='-', wall=WALL_MS):
    return list(self.run(['seed %s %d %d %s' % (scenario, n, wall, trace)]))[0]

  def replay(self, path, verbose=False, trace='-', wall=WALL_MS):
    return list(self.run(['replay %s %d %s %s' % (path, wall, 'v' if verbose else '-', trace)]))[0]

  def close(self):
    if self.p is not None:
      try:
        self.p.stdin.close()
        self.p.wait(timeout=5)
      except Exception:  # pylint: disable=broad-except
        self.p.kill()
        self.p.wait()
      self.p.stdout.close()
      self.p = None


def is_violation(r):
  return r['status'] in ('violation', 'died', 'timeout')


def key_of(r):
  return (r['status'], r.get('cls', ''))


class Stats:

  def __init__(self):
    self.runs = 0
    self.status = collections.Counter()
    self.fired = collections.Counter()
    self.probes = collections.Counter()
    self.sched = set()
    self.nontrivial = set()
    self.sums = collections.Counter()
    self.per = collections.defaultdict(collections.Counter)
    self.strats = collections.Counter()

  def add(self, scn, r):
    self.runs += 1
    self.status[r['status']] += 1
    self.fired.update(r.get('fired', {}))
    self.probes.update({scn + '.' + k: v for k, v in r.get('probes', {}).items()})
    h = (scn, r.get('work'), r.get('sched'), r.get('fault'))
    self.sched.add((scn, r.get('sched')))
    if r.get('nontrivial'):
      self.nontrivial.add(hash(h))
    for k in ('nsync', 'nmem', 'nswitch', 'nthreads', 'nio', 'nclock', 'sim_ns'):
      self.sums[k] += r.get(k, 0)
    self.strats[r.get('strat', 0)] += 1
    p = self.per[scn]
    p['runs'] += 1
    p['nontrivial'] += 1 if r.get('nontrivial') else 0
    p[r['status']] += 1


class Search:
  """Runs many seeds of several scenarios on all CPUs.

  jobs: list of (cmd, env, scenario, runs); stops at the first violation that
  `known` does not accept, at the first harness error, or at the deadline.
  """

  def __init__(self, jobs, seed0, deadline, known=lambda s, r: None, cpus=None, endless=False):
    self.jobs, self.seed0, self.deadline, self.known = jobs, seed0, deadline, known
    self.cpus = cpus or sorted(os.sched_getaffinity(0))
    self.stats = Stats()
    self.lock = threading.Lock()
    self.bad = []      # (scenario, seed, result, job)
    self.errors = []
    self.known_hits = collections.Counter()
    self.samples = []
    self.stop = False
    self.hashes = {}
    self.endless = endless

  def chunks(self):
    """Interleaves the scenarios."""
    pos = [0] * len(self.jobs)
    rnd = 0
    while True:
      left = False
      for k, (_, _, scn, runs) in enumerate(self.jobs):
        step = max(1, min(25, runs // 40))
        if pos[k] < runs or self.endless:
          n = step if self.endless else min(step, runs - pos[k])
          yield k, pos[k], n
          pos[k] += n
          left = True
      rnd += 1
      if not left:
        return

  def thread(self, cpu, it):
    ws = {}
    try:
      while not self.stop and time.time() < self.deadline:
        with self.lock:
          c = next(it, None)
        if c is None:
          return
        k, start, n = c
        cmd, env, scn, _ = self.jobs[k]
        wk = (tuple(cmd), tuple(sorted((env or {}).items())))
        if wk not in ws:
          ws[wk] = Worker(list(cmd), cpu, env)
        lines = ['seed %s %d %d -' % (scn, self.seed0 + start + i, WALL_MS) for i in range(n)]
        for i, r in enumerate(ws[wk].run(lines)):
          s = self.seed0 + start + i
          if r['status'] == 'timeout':
            # A busy machine, or a hang: only the latter comes again.
            again = Worker(list(cmd), cpu, env)
            r = again.seed(scn, s, wall=3 * WALL_MS)
            again.close()
          with self.lock:
            self.stats.add(scn, r)
            r['seed'] = s
            if s < self.seed0 + 3:
              self.hashes[(k, s)] = r.get('hash')
            if r['status'] == 'harness':
              self.errors.append((scn, s, r))
              self.stop = True
            elif is_violation(r):
              f = self.known(scn, r)
              if f is not None:
                self.known_hits[f] += 1
              else:
                self.bad.append((scn, s, r, k))
                self.stop = True
          if self.stop:
            break
    except Exception as e:  # pylint: disable=broad-except
      with self.lock:
        self.errors.append(('driver', 0, dict(status='harness', msg=repr(e))))
        self.stop = True
    finally:
      for w in ws.values():
        if self.stop and w.p is not None:
          w.p.kill()
        w.close()

  def run(self):
    it = self.chunks()
    ts = [threading.Thread(target=self.thread, args=(c, it), daemon=True) for c in self.cpus]
    t0 = time.time()
    for t in ts:
      t.start()
    for t in ts:
      t.join()
    self.wall = time.time() - t0
    self.bad.sort(key=lambda b: (b[2]['status'] != 'violation', b[1]))
    return self


# ---------------------------------------------------------------------------
# Traces
# ---------------------------------------------------------------------------


def load_trace(path):
  t = dict(head=[], W=[], S=[], M=[], F=[], C=[])
  with open(path) as f:
    for line in f:
      line = line.rstrip('\n')
      if len(line) >= 1 and line[0] in 'WSMFC' and (len(line) == 1 or line[1] == ' '):
        t[line[0]] = line[1:].split()
      elif not line.startswith('#'):
        t['head'].append(line)
  return t


def save_trace(t, path, comments=()):
  with open(path, 'w') as f:
    for l in t['head']:
      f.write(l + '\n')
    for c in comments:
      f.write('# ' + c.replace('\n', ' ') + '\n')
    for k in 'WSMFC':
      f.write(k + ''.join(' ' + x for x in t[k]) + '\n')


def minimise(worker, trace, same, budget_s):
  """Delta debugging over schedule, memory preemptions, faults, clock, workload."""
  end = time.time() + budget_s
  fd, tmp = tempfile.mkstemp(prefix='simmin')
  os.close(fd)
  tries = 0

  def ok(t):
    nonlocal tries
    if time.time() > end:
      return False
    tries += 1
    save_trace(t, tmp)
    r = worker.replay(tmp)
    return same(r)

  cur = {k: list(v) for k, v in trace.items()}
  try:
    for _ in range(3):
      before = sum(len(cur[k]) for k in 'SMFC') + sum(int(x) for x in cur['W'])
      for k in 'FCMS':
        t = dict(cur)
        t[k] = []
        if cur[k] and ok(t):
          cur = t
          continue
        n = max(1, len(cur[k]) // 2)
        while n >= 1 and cur[k] and time.time() < end:
          i, hit = 0, False
          while i < len(cur[k]) and time.time() < end:
            t = dict(cur)
            t[k] = cur[k][:i] + cur[k][i + n:]
            if ok(t):
              cur, hit = t, True
            else:
              i += n
          if n == 1 and not hit:
            break
          n = n // 2 if n > 1 else (1 if hit else 0)
      # Workload: drop the tail, then make every draw small.
      n = len(cur['W'])
      while n and time.time() < end:
        t = dict(cur)
        t['W'] = cur['W'][:len(cur['W']) - n]
        if len(cur['W']) >= n and ok(t):
          cur = t
        else:
          n //= 2
      for i in range(len(cur['W'])):
        if time.time() > end:
          break
        v = int(cur['W'][i])
        for c in [0, 1, v // 2, v - 1]:
          if 0 <= c < v:
            t = dict(cur)
            t['W'] = cur['W'][:i] + [str(c)] + cur['W'][i + 1:]
            if ok(t):
              cur = t
              break
      after = sum(len(cur[k]) for k in 'SMFC') + sum(int(x) for x in cur['W'])
      if after == before or time.time() > end:
        break
  finally:
    os.unlink(tmp)
  return cur, tries
