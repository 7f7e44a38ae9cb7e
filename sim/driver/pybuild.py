"""Prepares the Python side: generated protocol code and the preloaded file system."""
import hashlib
import os
import shutil
import sys

from . import build

PY = os.path.join(build.VERIF, 'sim', 'py')
VENV_PY = '/opt/venv/bin/python'


def _simfs():
  src = os.path.join(PY, 'simfs.cc')
  key = hashlib.sha256(build._read(src)).hexdigest()[:20]
  so = os.path.join(build.BUILD, 'simfs-%s.so' % key)
  if not os.path.exists(so):
    os.makedirs(build.BUILD, exist_ok=True)
    tmp = so + '.tmp%d' % os.getpid()
    build._run(['g++', '-std=c++17', '-O2', '-fPIC', '-shared', '-w', '-o', tmp, src, '-ldl'])
    os.replace(tmp, so)
  return so


def _copy():
  """A copy of the repository's Python tree with protoc's output in place."""
  root = os.path.join(build.REPO, 'nisaba')
  files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
           if f.endswith('.proto') or (f.endswith('.py') and not f.endswith('_test.py'))]
  key = hashlib.sha256((build._tree_hash(files) + '|' + build.REPO + '|3').encode()).hexdigest()[:20]
  dst = os.path.join(build.BUILD, 'py-' + key)
  if not os.path.isdir(dst):
    os.makedirs(build.BUILD, exist_ok=True)
    tmp = dst + '.tmp%d' % os.getpid()
    for f in files:
      to = os.path.join(tmp, os.path.relpath(f, build.REPO))
      os.makedirs(os.path.dirname(to), exist_ok=True)
      shutil.copyfile(f, to)
    protos = [os.path.relpath(f, build.REPO) for f in files if f.endswith('.proto')]
    build._run(['protoc', '-I' + build.REPO, '--python_out=' + tmp] + protos)
    if os.path.isdir(dst):
      shutil.rmtree(tmp)
    else:
      os.rename(tmp, dst)
  return dst


def command(group, g):
  so, dst = _simfs(), _copy()
  sys.stderr.write('python tree %s\n' % dst)
  env = {'LD_PRELOAD': so, 'SIM_COPY': dst, 'RUNFILES_DIR': '/sim/rf', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
         'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONUTF8': '1',
         'PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION': 'upb'}
  return ['setarch', '-R', VENV_PY, os.path.join(PY, 'pysim.py')], env
