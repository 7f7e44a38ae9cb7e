"""All Python scenarios."""
import importlib

import pynini

import pysim

SCENARIOS = {}
JOBS = {}
NEED_HELPERS = set()
PREPARE = {}
_MODULES = ['sc_far', 'sc_data', 'sc_build', 'sc_nat']
_mods = []
_RT = [None]
# Read errors met inside the library's own table reader (see DESIGN.md).
string_file_errors = [0]
_string_file = pynini.string_file


def _watched_string_file(*args, **kwargs):
  rt = _RT[0]
  before = rt.fired(pysim.READ_EIO) if rt else 0
  try:
    return _string_file(*args, **kwargs)
  finally:
    if rt:
      string_file_errors[0] += rt.fired(pysim.READ_EIO) - before


pynini.string_file = _watched_string_file


def setup():
  for m in _MODULES:
    mod = importlib.import_module(m)
    mod.setup()
    SCENARIOS.update(mod.SCENARIOS)
    JOBS.update(mod.JOBS)
    NEED_HELPERS.update(mod.NEED_HELPERS)
    PREPARE.update({n: mod.prepare for n in getattr(mod, 'PREPARE', ())})
    _mods.append(mod)


def begin(rt):
  _RT[0] = rt
  string_file_errors[0] = 0
  for m in _mods:
    m.RT = rt
