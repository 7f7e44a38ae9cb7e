"""Builds the simulated binaries from /repo's current working tree.

Objects are cached under /verif/.build by a hash of everything that can enter
them (the source, every header of the repository, the simulator's own headers
and the flags), so that repeated runs in one sandbox are fast; nothing depends
on the cache being there.
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = os.path.join(VERIF, 'sim', 'cxx')
BUILD = os.path.join(VERIF, '.build')

INSTR = ['-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVERIF_SIM=1', '-w']
# Abseil randomises the order of hash tables by an address: see simrt.cc.
WRAP = '-Wl,--wrap=_ZN4absl7debian318container_internal21ShouldInsertBackwardsEmPKNS1_6ctrl_tE'
PLAIN = ['-std=c++17', '-O2', '-g1', '-w']


class BuildError(Exception):
  pass


def _incs(pb):
  return ['-I' + os.path.join(CXX, 'shims'), '-I' + CXX, '-I' + pb, '-I' + REPO, '-I/usr/include/utf8cpp']


def _read(p):
  with open(p, 'rb') as f:
    return f.read()


def _tree_hash(paths):
  h = hashlib.sha256()
  for p in sorted(paths):
    h.update(p.encode())
    h.update(_read(p))
  return h.hexdigest()


def repo_sources(patterns):
  """Library sources of the repository (no tests, no mains), by directory."""
  out = []
  for p in patterns:
    for f in sorted(glob.glob(os.path.join(REPO, p))):
      b = os.path.basename(f)
      if b.endswith('_test.cc') or b in ('test_utils.cc',):
        continue
      out.append(f)
  return out


def _run(cmd):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
  if r.returncode:
    raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[:3000]))


def _finish(tmp, dst):
  os.replace(tmp, dst)


def build(name, patterns, harness, mains=(), libs=(), protos=True, log=sys.stderr):
  """Returns the path of the binary for one group."""
  t0 = time.time()
  os.makedirs(BUILD, exist_ok=True)
  headers = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, 'nisaba')) for f in fs
             if f.endswith(('.h', '.proto', '.inc'))]
  sim = [os.path.join(d, f) for d, _, fs in os.walk(CXX) for f in fs if f.endswith('.h')]
  hh = _tree_hash(headers + sim)
  pbkey = _tree_hash([h for h in headers if h.endswith('.proto')])[:16]
  pb = os.path.join(BUILD, 'pb-' + pbkey)
  if not os.path.isdir(pb):
    tmp = pb + '.tmp%d' % os.getpid()
    os.makedirs(tmp)
    files = [os.path.relpath(h, REPO) for h in headers if h.endswith('.proto')]
    _run(['protoc', '-I' + REPO, '--cpp_out=' + tmp] + files)
    if os.path.isdir(pb):
      shutil.rmtree(tmp)
    else:
      os.rename(tmp, pb)
  jobs = []  # (src, flags, section)

  def add(src, flags):
    key = hashlib.sha256(repr((hh, pbkey, flags, os.path.relpath(src, '/'))).encode() + _read(src)).hexdigest()[:24]
    obj = os.path.join(BUILD, key + '.o')
    jobs.append((src, flags, obj))
    return obj

  pre = ['-include', os.path.join(CXX, 'shims', 'prefix.h')]
  mid = []
  for s in repo_sources(patterns):
    b = os.path.basename(s)
    if b.endswith(('_main.cc', '-main.cc')):
      if os.path.relpath(s, REPO) not in mains:
        continue
      entry = 'sim_main_' + b[:-3].replace('-', '_')
      flags = ['-include', os.path.join(CXX, 'shims', 'simflags.h')]
      mid.append(add(s, INSTR + pre + flags + ['-Dmain=' + entry] + _incs(pb)))
    else:
      mid.append(add(s, INSTR + pre + _incs(pb)))
  for h in harness:
    mid.append(add(os.path.join(CXX, 'harness', h), INSTR + pre + _incs(pb)))
  first = add(os.path.join(CXX, 'mark_begin.cc'), PLAIN)
  last = [add(os.path.join(CXX, 'mark_end.cc'), PLAIN), add(os.path.join(CXX, 'simrt.cc'), PLAIN + ['-I' + CXX])]
  if protos:
    for f in sorted(glob.glob(os.path.join(pb, 'nisaba', '**', '*.pb.cc'), recursive=True)):
      last.append(add(f, ['-std=c++17', '-O1', '-w'] + _incs(pb)[2:3]))
  todo = [j for j in jobs if not os.path.exists(j[2])]
  # The biggest sources first: they decide the wall time.
  todo.sort(key=lambda j: -os.path.getsize(j[0]))

  def compile_one(j):
    src, flags, obj = j
    tmp = obj + '.tmp%d' % os.getpid()
    _run(['clang++'] + flags + ['-c', src, '-o', tmp])
    _finish(tmp, obj)

  with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
    for f in [ex.submit(compile_one, j) for j in todo]:
      f.result()
  objs = [first] + mid + last
  exekey = hashlib.sha256(repr((objs, list(libs))).encode()).hexdigest()[:24]
  exe = os.path.join(BUILD, '%s-%s' % (name, exekey))
  if not os.path.exists(exe):
    absl = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
    tmp = exe + '.tmp%d' % os.getpid()
    _run(['clang++', '-no-pie', '-rdynamic', WRAP, '-o', tmp] + objs + ['-Wl,--start-group'] + absl + ['-Wl,--end-group'] +
         (['-lprotobuf'] if protos else []) + list(libs) + ['-ldl', '-lpthread'])
    _finish(tmp, exe)
  prune()
  log.write('built %s in %.1f s (%d of %d objects compiled)\n' % (name, time.time() - t0, len(todo), len(jobs)))
  return exe


def prune(limit=1500 << 20):
  """Keeps the cache directory bounded."""
  fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
  fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs if os.path.isfile(f)]
  total = sum(s for _, s, _ in fs)
  for _, s, f in sorted(fs):
    if total < limit:
      break
    if time.time() - os.stat(f).st_mtime < 3600:
      continue
    os.unlink(f)
    total -= s
