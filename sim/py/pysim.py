"""Deterministic simulator for the Python side: a command server.

The server imports the repository's modules once and forks one process per
run.  In the run, the file system below /sim/ is simfs (preloaded), threads are
real threads of which exactly one runs at a time, handed over by a seeded
scheduler at every bytecode instruction of repository code and at every
synchronisation, and time is simulated.  Every decision is written to a trace
that replays the run.
"""
import os
import sys

if '--helper' in sys.argv:
  HELPER = True
else:
  HELPER = False

import _thread
import ctypes
import gc
import json
import signal
import struct
import subprocess
import time as _time
import traceback

import functools
import logging
import queue
import resource
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
COPY = os.environ['SIM_COPY']           # copy of the repository's Python tree with generated code
sys.path.insert(0, os.path.join(HERE, 'shims'))
sys.path.insert(0, COPY)
sys.path.insert(0, HERE)

MASK = (1 << 64) - 1
READ_EIO, READ_EINTR, READ_SHORT, WRITE_EIO, WRITE_ENOSPC, WRITE_EINTR, WRITE_SHORT, OPEN_FAIL, CLOSE_FAIL, STAT_FAIL, SEEK_FAIL = [
    1 << i for i in range(11)]
BENIGN = READ_EINTR | READ_SHORT | WRITE_EINTR | WRITE_SHORT
NAMES = ['read-EIO', 'read-EINTR', 'short-read', 'write-EIO', 'write-ENOSPC', 'write-EINTR', 'short-write', 'open-fail',
         'close-fail', 'stat-fail', 'seek-fail']

fs = ctypes.CDLL(None)
for f_, args_, res_ in [
    ('begin', [ctypes.c_uint64, ctypes.c_int, ctypes.c_uint, ctypes.c_uint, ctypes.c_uint64, ctypes.c_int], None),
    ('exempt', [ctypes.c_char_p], None), ('fragile', [ctypes.c_char_p], None), ('add', [ctypes.c_uint64, ctypes.c_uint, ctypes.c_uint], None),
    ('faults', [ctypes.c_uint], None), ('fired', [ctypes.c_uint], ctypes.c_uint64), ('nio', [], ctypes.c_uint64),
    ('hash', [], ctypes.c_uint64), ('fault_hash', [], ctypes.c_uint64), ('nout', [], ctypes.c_uint),
    ('out', [ctypes.c_uint, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p], None),
    ('put', [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t], None), ('size', [ctypes.c_char_p], ctypes.c_int64),
    ('data', [ctypes.c_char_p], ctypes.c_void_p), ('remove', [ctypes.c_char_p], None), ('open_files', [], ctypes.c_int),
    ('links', [ctypes.c_int], None)]:
  fn_ = getattr(fs, 'simfs_' + f_)
  fn_.argtypes, fn_.restype = args_, res_


class Rng:

  def __init__(self, seed):
    self.s = seed & MASK

  def next(self):
    self.s = (self.s + 0x9e3779b97f4a7c15) & MASK
    z = self.s
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & MASK
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & MASK
    return z ^ (z >> 31)

  def below(self, n):
    return self.next() % n


def mix(h, v):
  return (((h ^ (v & MASK)) * 1099511628211) + (h >> 29)) & MASK


def mix_text(h, t):
  for b in struct.unpack('<%dQ' % ((len(t) + 7) // 8), t + b'\0' * (-len(t) % 8)):
    h = mix(h, b)
  return mix(h, len(t))


class Violation(Exception):

  def __init__(self, cls, msg):
    super().__init__(msg)
    self.cls, self.msg = cls, msg


# ---------------------------------------------------------------------------
# Threads
# ---------------------------------------------------------------------------
_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_sleep = _time.sleep
_real_join = threading.Thread.join


class Task:

  def __init__(self, tid):
    self.tid = tid
    self.baton = _real_allocate()
    self.baton.acquire()
    self.done = False
    self.waiting = None    # predicate
    self.wake = None       # simulated time
    self.why = ''
    self.in_import = 0


class Runtime:
  """One simulated run."""

  STEPS = 2000000

  def __init__(self, scenario, seed, replay, verbose, out_fd):
    self.scenario, self.verbose, self.out_fd = scenario, verbose, out_fd
    self.replay = replay
    self.rng_w, self.rng_s = Rng(seed * 2654435761 + 1), Rng(seed * 40503 + 0x5bd1e995)
    rc = Rng(seed * 7919 + 13)
    self.W, self.S = [], []
    self.wpos = 0
    self.hash = self.work = self.sched = 14695981039346656037
    self.npoint = self.nswitch = self.nmem = 0
    self.sim_ns = 0
    self.nontrivial = False
    self.probes = {}
    self.active = False
    self.tasks = [Task(0)]
    self.cur = self.tasks[0]
    self.in_s = {}
    mode = rc.below(8)
    self.strat = [0, 0, 0, 1, 1, 1, 2, 3][mode]
    self.p = [2, 4, 16, 64, 256][rc.below(5)]
    n = 1 + rc.below(4)
    top = 1 << (4 + rc.below(9))
    self.at = {rc.below(top) for _ in range(n)}
    self.fs_mode = [0, 1, 1, 1, 2, 2][rc.below(6)]
    self.fs_rate = [2, 6, 20, 60][rc.below(4)]
    self.fs_at = rc.below([4, 12, 40, 120, 400][rc.below(5)])
    self.fs_seed = rc.next()
    if replay:
      for e in replay['S']:
        n, t = e.split(':')
        self.in_s[int(n)] = int(t)
    fs.simfs_exempt(b'_repo_mapping')
    fs.simfs_fragile(b'.far')
    fs.simfs_begin(self.fs_seed, 1 if replay else 0, self.fs_mode, self.fs_rate, self.fs_at, 1 if verbose else 0)
    if replay:
      for e in replay['F']:
        k, kind, prm = e.split(':')
        fs.simfs_add(int(k), int(kind), int(prm))

  # ---- workload draws
  def w(self, n):
    """A number below n."""
    if self.replay:
      v = int(self.replay['W'][self.wpos]) % n if self.wpos < len(self.replay['W']) else 0
      self.wpos += 1
    else:
      v = self.rng_w.below(n)
    self.W.append(v)
    self.work = mix(self.work, v + 1)
    return v

  def chance(self, num, den):
    """True with num/den; shrinks to False."""
    return self.w(den) >= den - num

  def pick(self, xs):
    return xs[self.w(len(xs))]

  def event(self, *xs):
    self.hash = mix_text(self.hash, repr(xs).encode('utf8', 'surrogatepass'))

  def say(self, fmt, *args):
    if self.verbose:
      os.write(1, ('  [%d] ' % self.cur.tid + (fmt % args if args else fmt) + '\n').encode('utf8', 'replace'))

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def fail(self, cls, msg, *args):
    if args:
      msg = msg % args
    self.finish('violation', cls, msg)

  def check(self, cond, cls, msg, *args):
    if not cond:
      self.fail(cls, msg, *args)

  # ---- files
  def put(self, path, data):
    if isinstance(data, str):
      data = data.encode('utf8')
    fs.simfs_put(path.encode(), data, len(data))

  def get(self, path):
    n = fs.simfs_size(path.encode())
    if n < 0:
      return None
    return ctypes.string_at(fs.simfs_data(path.encode()), n) if n else b''

  def remove(self, path):
    fs.simfs_remove(path.encode())

  def faults(self, mask):
    fs.simfs_faults(mask)

  def fired(self, mask=2047):
    return fs.simfs_fired(mask)

  # ---- scheduling
  def runnable(self):
    out = []
    for t in self.tasks:
      if t.done:
        continue
      if ((t.waiting is None and t.wake is None) or (t.waiting is not None and t.waiting()) or
          (t.wake is not None and t.wake <= self.sim_ns)):
        out.append(t)
    return out

  def point(self, mem=False):
    """The current task may lose the processor here."""
    if not self.active or self.cur.in_import:
      return
    k = self.npoint
    self.npoint = k + 1
    if mem:
      self.nmem += 1
    if k > self.STEPS:
      self.fail('no-progress', 'the run did not end within %d steps', self.STEPS)
    if self.replay is not None:
      if k not in self.in_s:
        return
    elif self.strat == 3:
      return
    elif self.strat == 1:
      if k not in self.at:
        return
    elif self.strat == 2:
      if mem or self.rng_s.below(2):
        return
    elif self.rng_s.below(self.p):
      return
    r = self.runnable()
    if len(r) <= 1:
      return
    others = [t for t in r if t is not self.cur]
    if self.replay is not None:
      nxt = [t for t in others if t.tid == self.in_s[k]]
      if not nxt:
        return
      nxt = nxt[0]
    else:
      nxt = others[self.rng_s.below(len(others))]
    self.S.append('%d:%d' % (k, nxt.tid))
    self.switch(nxt, k)

  def switch(self, nxt, k):
    me = self.cur
    self.nswitch += 1
    self.sched = mix(mix(self.sched, k), nxt.tid)
    if self.verbose:
      f = sys._getframe(1)
      while f and '/py/pysim.py' in f.f_code.co_filename:
        f = f.f_back
      os.write(1, ('  -- step %d: thread %d -> %d at %s:%d %s\n' % (
          k, me.tid, nxt.tid, os.path.basename(f.f_code.co_filename), f.f_lineno or 0, f.f_code.co_name)).encode())
    self.cur = nxt
    nxt.wake = nxt.waiting = None
    nxt.baton.release()
    me.baton.acquire()

  def block(self, pred=None, wake=None, why=''):
    """Waits until pred() holds or the simulated time comes."""
    me = self.cur
    me.waiting, me.wake, me.why = pred, wake, why
    k = self.npoint
    self.npoint = k + 1
    if k > self.STEPS:
      self.fail('no-progress', 'the run did not end within %d steps', self.STEPS)
    self.handover(k)
    if self.cur is not me:
      raise AssertionError('scheduler')

  def handover(self, k):
    me = self.cur
    while True:
      r = self.runnable()
      if r:
        break
      ws = [t.wake for t in self.tasks if not t.done and t.wake is not None]
      if not ws:
        self.fail('deadlock', 'every thread waits: %s', ', '.join('%d %s' % (t.tid, t.why) for t in self.tasks if not t.done))
      self.sim_ns = min(ws)
    if self.replay is not None:
      nxt = [t for t in r if t.tid == self.in_s.get(k)] or r
      nxt = nxt[0]
    else:
      nxt = r[self.rng_s.below(len(r))]
    if nxt is not r[0]:
      self.S.append('%d:%d' % (k, nxt.tid))
    if nxt is me:
      me.waiting = me.wake = None
      return
    if me.done:
      self.cur = nxt
      self.nswitch += 1
      self.sched = mix(mix(self.sched, k), nxt.tid)
      nxt.wake = nxt.waiting = None
      nxt.baton.release()
      return
    self.switch(nxt, k)

  def start_thread(self, fn, args=(), kwargs=None, owner=None):
    t = Task(len(self.tasks))
    if isinstance(owner, threading.Thread):
      owner._sim_task = t
    self.tasks.append(t)
    self.active = True

    def body():
      t.baton.acquire()
      sys.settrace(gtrace)
      try:
        fn(*args, **(kwargs or {}))
      except SystemExit:
        pass
      except BaseException:  # pylint: disable=broad-except
        sys.settrace(None)
        self.finish('harness', 'thread', traceback.format_exc()[-1500:])
      sys.settrace(None)
      t.done = True
      k = self.npoint
      self.npoint = k + 1
      self.handover(k)

    _real_start(body, ())
    self.point()
    return t

  def run_all(self, fns):
    """Runs the functions as concurrent threads and waits for all of them."""
    if len(fns) == 1:
      sys.settrace(gtrace)
      fns[0]()
      sys.settrace(None)
      return
    ts = [self.start_thread(f) for f in fns]
    self.block(lambda: all(t.done for t in ts), why='waits for its threads')

  # ---- end of the run
  def finish(self, status, cls='', msg=''):
    fired = {}
    for i, n in enumerate(NAMES):
      v = fs.simfs_fired(1 << i)
      if v:
        fired[n] = v
    h = mix(mix(mix(self.hash, self.sched), fs.simfs_hash()), self.work)
    r = dict(status=status, cls=cls, msg=str(msg)[:1500], hash='%016x' % h, sched='%016x' % self.sched, work='%016x' % self.work,
             fault='%016x' % fs.simfs_fault_hash(), nsync=self.npoint - self.nmem, nmem=self.nmem, nswitch=self.nswitch,
             nthreads=len(self.tasks), nio=fs.simfs_nio(), nclock=0, sim_ns=self.sim_ns, nontrivial=1 if self.nontrivial else 0,
             strat=self.strat, fired=fired, probes=self.probes)
    F = []
    k, kind, prm = ctypes.c_uint64(), ctypes.c_uint(), ctypes.c_uint()
    for i in range(fs.simfs_nout()):
      fs.simfs_out(i, ctypes.byref(k), ctypes.byref(kind), ctypes.byref(prm))
      F.append('%d:%d:%d' % (k.value, kind.value, prm.value))
    # In a replay the given decisions are the trace.
    r['trace'] = dict(W=self.W, S=self.S, F=F)
    data = json.dumps(r).encode()
    data = struct.pack('<I', len(data)) + data
    while data:
      data = data[os.write(self.out_fd, data):]
    os._exit(0)


RT = None


def point(mem=False):
  rt = RT
  if rt is not None:
    rt.point(mem)


_traced = {}


def _is_traced(code):
  v = _traced.get(code)
  if v is None:
    f = code.co_filename
    v = _traced[code] = 2 if f.startswith(COPY) and code.co_name == '<module>' else 1 if f.startswith(COPY) or f == functools.__file__ else 0
  return v


def gtrace(frame, event, arg):
  v = _is_traced(frame.f_code)
  if v == 0:
    return None
  if v == 2:
    RT.cur.in_import += 1

    def end(frame, event, arg):
      if event == 'return':
        RT.cur.in_import -= 1
      return end

    return end
  frame.f_trace_lines = False
  frame.f_trace_opcodes = True
  RT.point(True)
  return ltrace


def ltrace(frame, event, arg):
  if event == 'opcode':
    RT.point(True)
  return ltrace


class SimLock:
  """Stands for threading.Lock in code imported after patching."""

  def __init__(self):
    self._owner = None

  def acquire(self, blocking=True, timeout=-1):
    rt = RT
    if rt is None or not rt.active:
      if self._owner is not None and blocking and rt is not None:
        rt.fail('deadlock', 'a lock is taken twice by the only thread')
      if self._owner is not None:
        return False
      self._owner = -1
      return True
    rt.point()
    if self._owner is not None:
      if not blocking:
        return False
      wake = rt.sim_ns + int(timeout * 1e9) if timeout is not None and timeout >= 0 else None
      while self._owner is not None:
        if wake is not None and rt.sim_ns >= wake:
          return False
        rt.block(lambda: self._owner is None, wake, 'waits for a lock')
    self._owner = rt.cur.tid
    return True

  def release(self):
    if self._owner is None:
      raise RuntimeError('release unlocked lock')
    self._owner = None
    point()

  def locked(self):
    return self._owner is not None

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()

  acquire_lock, release_lock, locked_lock = acquire, release, locked

  def _at_fork_reinit(self):
    self._owner = None


class SimRLock:
  """Stands for threading.RLock."""

  def __init__(self):
    self._lock = SimLock()
    self._who = None
    self._count = 0

  def _me(self):
    return RT.cur.tid if RT is not None else -1

  def acquire(self, blocking=True, timeout=-1):
    if self._who is not None and self._who == self._me():
      self._count += 1
      return True
    if not self._lock.acquire(blocking, timeout):
      return False
    self._who, self._count = self._me(), 1
    return True

  def release(self):
    if self._who != self._me():
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if not self._count:
      self._who = None
      self._lock.release()

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()

  def _is_owned(self):
    return self._who == self._me()

  def _release_save(self):
    c, self._count, self._who = self._count, 0, None
    self._lock.release()
    return c

  def _acquire_restore(self, c):
    self._lock.acquire()
    self._count, self._who = c, self._me()

  def _recursion_count(self):
    return self._count if self._is_owned() else 0

  def _at_fork_reinit(self):
    self.__init__()


def _sim_start(fn, args=(), kwargs=None):
  if RT is None:
    return _real_start(fn, args, kwargs or {})
  RT.start_thread(fn, args, kwargs, getattr(fn, '__self__', None))
  return len(RT.tasks)


def _sim_join(self, timeout=None):
  rt = RT
  if rt is not None and rt.active and getattr(self, '_started', None) is not None:
    t = getattr(self, '_sim_task', None)
    if t is not None and not t.done:
      wake = rt.sim_ns + int(timeout * 1e9) if timeout is not None else None
      rt.block(lambda: t.done, wake, 'joins a thread')
      if not t.done:
        return
  return _real_join(self, timeout)


def _sim_sleep(s):
  rt = RT
  if rt is None:
    return _real_sleep(s)
  if not rt.active:
    rt.sim_ns += int(s * 1e9)
    return None
  rt.block(None, rt.sim_ns + max(0, int(s * 1e9)), 'sleeps')
  return None


EPOCH = 1700000000.0


def _clock(base):

  def f():
    if RT is None:
      return base
    RT.sim_ns += 1000
    return base + RT.sim_ns / 1e9

  return f


def patch():
  """After this, newly imported code gets simulated primitives."""
  _thread.allocate_lock = SimLock
  _thread.RLock = SimRLock
  threading.Lock = SimLock
  threading.RLock = SimRLock
  threading._allocate_lock = SimLock
  threading._CRLock = SimRLock
  threading._start_new_thread = _sim_start
  threading.Thread.join = _sim_join
  queue.SimpleQueue = queue._PySimpleQueue
  _time.sleep = _sim_sleep
  _time.time, _time.monotonic, _time.perf_counter = _clock(EPOCH), _clock(1000.0), _clock(1000.0)


# ---------------------------------------------------------------------------
# Helper processes: the same code under another hash randomisation
# ---------------------------------------------------------------------------
class Helper:

  def __init__(self, hashseed):
    self.ready = False
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    if hashseed == PLAIN_LOCALE:
      env.update(LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--helper'], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

  def wait_ready(self):
    if not self.ready:
      self.ready = self.p.stdout.read(1) == b'R'
      if not self.ready:
        raise SystemExit('a helper process did not start')

  def call(self, name, args):
    d = json.dumps([name, args]).encode()
    self.p.stdin.write(struct.pack('<I', len(d)) + d)
    self.p.stdin.flush()
    n = struct.unpack('<I', self.p.stdout.read(4))[0]
    return json.loads(self.p.stdout.read(n))

  def kill(self):
    self.p.kill()
    self.p.wait()
    self.p.stdin.close()
    self.p.stdout.close()


HELPERS = {}
HASH_SEEDS = [1, 2, 3, 4]
PLAIN_LOCALE = 4  # This one takes text for ASCII unless it is told otherwise.


def in_process(which, name, args):
  """Runs JOBS[name](*args) in a fresh process with another hash seed."""
  r = HELPERS[which % len(HASH_SEEDS)].call(name, args)
  if r[0] == 'crash':
    RT.finish('harness', 'helper', r[1])
  return r


def ensure_helpers():
  for i, s in enumerate(HASH_SEEDS):
    if i not in HELPERS:
      HELPERS[i] = Helper(s)
  for h in HELPERS.values():
    h.wait_ready()


def run_job(scen, name, args):
  """A job: ['ok', value] or ['error', type, text]."""
  try:
    return ['ok', scen.JOBS[name](*args)]
  except Exception as e:  # pylint: disable=broad-except
    return ['error', type(e).__name__, str(e)]


def helper_loop(scen):
  i, o = sys.stdin.buffer, sys.stdout.buffer
  o.write(b'R')
  o.flush()
  while True:
    h = i.read(4)
    if len(h) < 4:
      return
    name, args = json.loads(i.read(struct.unpack('<I', h)[0]))
    if name in scen.PREPARE:
      scen.PREPARE[name]()
      gc.freeze()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(r)
      os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
      limit_memory()
      try:
        fs.simfs_exempt(b'_repo_mapping')
        fs.simfs_begin(0, 1, 0, 0, 0, 0)
        res = run_job(scen, name, args)
      except BaseException:  # pylint: disable=broad-except
        res = ['crash', traceback.format_exc()[-1000:]]
      d = json.dumps(res).encode()
      d = struct.pack('<I', len(d)) + d
      while d:
        d = d[os.write(w, d):]
      os._exit(0)
    os.close(w)
    data = b''
    while True:
      b = os.read(r, 1 << 16)
      if not b:
        break
      data += b
    os.close(r)
    os.waitpid(pid, 0)
    if len(data) < 4:
      d = json.dumps(['crash', 'the helper process died']).encode()
      data = struct.pack('<I', len(d)) + d
    o.write(data)
    o.flush()


# ---------------------------------------------------------------------------
# Command loop
# ---------------------------------------------------------------------------
def read_trace(path):
  t = dict(W=[], S=[], F=[], C=[], M=[], head=[])
  for line in open(path):
    line = line.rstrip('\n')
    if line and line[0] in 'WSMFC' and (len(line) == 1 or line[1] == ' '):
      t[line[0]] = line[1:].split()
    elif not line.startswith('#'):
      t['head'].append(line)
  return t


def write_trace(path, scenario, tr):
  with open(path, 'w') as f:
    f.write('simtrace 1\nscenario %s\n' % scenario)
    for k in 'WSMFC':
      f.write(k + ''.join(' ' + str(x) for x in tr.get(k, [])) + '\n')


MEMORY = 2 << 30


def limit_memory():
  """Of one run or job, so that changed code cannot end everything else."""
  resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def run(scen, name, seed, replay, wall_ms, verbose):
  """Forks one run and returns its result."""
  global RT
  fn = scen.SCENARIOS[name]
  if name in scen.NEED_HELPERS:
    ensure_helpers()
  if name in scen.PREPARE:
    scen.PREPARE[name]()
    gc.freeze()
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    os.close(r)
    null = os.open('/dev/null', os.O_RDWR)
    os.dup2(null, 0)
    if not verbose:
      os.dup2(null, 1)
      os.dup2(null, 2)
    else:
      os.dup2(1, 2)
    limit_memory()
    try:
      RT = Runtime(name, seed, replay, verbose, w)
      scen.begin(RT)
      fs.simfs_links(RT.w(2))
      fn(RT)
      sys.settrace(None)
      RT.finish('ok')
    except MemoryError:
      sys.settrace(None)
      RT.finish('violation', 'out-of-memory', 'the run needs more than %d MB' % (MEMORY >> 20))
    except BaseException:  # pylint: disable=broad-except
      sys.settrace(None)
      if verbose:
        traceback.print_exc()
      RT.finish('harness', 'exception', traceback.format_exc()[-1500:])
    finally:
      os._exit(3)
  os.close(w)
  end = _real_monotonic() + wall_ms / 1000.0
  data = b''
  import select
  timed_out = False
  while True:
    left = end - _real_monotonic()
    if left <= 0 or not select.select([r], [], [], left)[0]:
      timed_out = True
      os.kill(pid, signal.SIGKILL)
      break
    b = os.read(r, 1 << 16)
    if not b:
      break
    data += b
    if len(data) >= 4 and len(data) >= 4 + struct.unpack('<I', data[:4])[0]:
      break
  os.close(r)
  _, st = os.waitpid(pid, 0)
  if len(data) >= 4 and len(data) >= 4 + struct.unpack('<I', data[:4])[0]:
    return json.loads(data[4:4 + struct.unpack('<I', data[:4])[0]])
  for h in list(HELPERS):
    HELPERS.pop(h).kill()
  if timed_out:
    return dict(status='timeout', cls='timeout', msg='the run did not end in %d ms' % wall_ms, hash='', trace=None)
  return dict(status='died', cls='signal-%d' % (st & 127) if st & 127 else 'exit-%d' % (st >> 8), msg='the process died',
              hash='', trace=None)


_real_monotonic = _time.monotonic


def main():
  resource.setrlimit(resource.RLIMIT_AS, (2 * MEMORY, 2 * MEMORY))
  logging.disable(logging.CRITICAL)
  import absl.logging  # pylint: disable=unused-import
  import pathlib, warnings, re, string, unicodedata, itertools, io, tempfile, csv, concurrent.futures  # pylint: disable=unused-import,multiple-imports
  import google.protobuf.text_format, pynini, pynini.lib.byte, numpy, pandas, networkx, pyemd  # pylint: disable=unused-import,multiple-imports
  warnings.simplefilter('ignore')
  patch()
  import scenarios as scen
  scen.setup()
  gc.collect()
  gc.disable()
  gc.freeze()
  if HELPER:
    helper_loop(scen)
    return
  out = sys.stdout.buffer
  for line in sys.stdin:
    a = line.split()
    if not a:
      continue
    tr = '-'
    if a[0] == 'list':
      res = dict(status='ok', scenarios=sorted(scen.SCENARIOS))
    elif a[0] == 'seed':
      res = run(scen, a[1], int(a[2]), None, int(a[3]), len(a) > 5)
      tr, name = a[4], a[1]
    elif a[0] == 'replay':
      t = read_trace(a[1])
      name = [h.split()[1] for h in t['head'] if h.startswith('scenario ')][0]
      res = run(scen, name, 0, t, int(a[2]), a[3] == 'v')
      tr = a[4]
    else:
      res = dict(status='harness', cls='command', msg='unknown command')
    t = res.pop('trace', None)
    if tr != '-' and t is not None:
      write_trace(tr, name, t)
    out.write((json.dumps(res) + '\n').encode())
    out.flush()


if __name__ == '__main__':
  import pysim  # the module the scenarios see
  pysim.main()
