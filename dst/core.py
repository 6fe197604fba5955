"""Shared pieces of every check: the run wrapper, result record, minimiser."""
from __future__ import annotations

import contextlib
import gc
import io
import json
import os
import sys
import traceback

REPO = os.environ.get("DST_REPO", "/repo")
WALL_PER_RUN = 60.0


def setup_repo():
  """Import streamtasks from the repository's working tree (never a copy)."""
  os.environ.setdefault("NODE_NAME", "simnode")
  os.environ.setdefault("DATA_DIR", "/nonexistent-dst")
  if REPO not in sys.path: sys.path.insert(0, REPO)
  import logging
  logging.disable(logging.CRITICAL)
  import warnings
  warnings.simplefilter("ignore")
  sys.unraisablehook = lambda *_: None
  import streamtasks
  path = os.path.realpath(list(streamtasks.__path__)[0])
  if not path.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError(f"streamtasks imported from {path}, not from {REPO}")


class HarnessError(Exception): pass


RUNS = [0]


def execute(case, main, *, sim_opts=None, keep_log=False, setup=None, inside=None):
  """Run `await main(sim, case)` in a fresh simulator. Returns the result dict.
  main may raise Violation, or any exception (reported as a violation: on the
  unchanged tree no run raises, see the sampled baseline)."""
  from dst.sim import Sim, Violation, WallAlarm, wall_alarm
  gc.collect()
  RUNS[0] += 1
  if RUNS[0] == 3: gc.freeze() # modules are loaded by now; collecting gets cheap
  sim = Sim(case["seed"], keep_log=keep_log, **(sim_opts or {}))
  if setup: setup(sim)
  viol = None
  out = None
  sink = io.StringIO()
  cm = inside(sim) if inside else contextlib.nullcontext()
  t0 = sim.now
  try:
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), cm:
      with wall_alarm(WALL_PER_RUN):
        out = sim.run(lambda: main(sim, case))
  except Violation as e: viol = (e.kind, e.message)
  except WallAlarm: viol = ("hang", f"a callback ran for over {WALL_PER_RUN:.0f} s without returning to the event loop")
  except HarnessError: raise
  except KeyboardInterrupt: raise
  except BaseException as e:
    tb = traceback.extract_tb(e.__traceback__)
    where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/streamtasks/" in f.filename), None)
    if where is None and isinstance(e, (AssertionError, ImportError, NameError, MemoryError)):
      raise HarnessError("".join(traceback.format_exception(e))) from e
    viol = ("unexpected-exception", f"{type(e).__name__}: {str(e)[:300]} (in {where})")
  res = {
    "violation": viol,
    "crc": sim.crc,
    "steps": sim.steps,
    "sim_time": round(sim.now - t0, 6),
    "faults": sim.faults,
    "probes": sim.probes,
    "reorders": sim.reorders,
    "states": sorted(sim.states, key=repr)[:200],
    "info": out,
  }
  if keep_log: res["log"] = sim.log
  gc.collect()
  return res


def shrink(case, run, kind, budget=300, extra=None):
  """Greedy ddmin over case['ops'] plus config simplifications; keeps the same
  violation class. run(case) -> result dict."""
  tries = 0
  def fails(c):
    nonlocal tries
    tries += 1
    try: r = run(c)
    except HarnessError: return False
    return r["violation"] is not None and r["violation"][0] == kind
  best = case
  # simplify the configuration first: fewer faults, plainer schedule
  for cand in (extra(best) if extra else []):
    if tries > budget: break
    if fails(cand): best = cand
  for key in ("shuffle", "stall_prob"):
    if best["cfg"].get(key):
      cand = { **best, "cfg": { **best["cfg"], key: 0.0 } }
      if fails(cand): best = cand
  ops = list(best["ops"])
  n = 2
  while len(ops) >= 1 and tries < budget:
    size = max(1, len(ops) // n)
    reduced = False
    for i in range(0, len(ops), size):
      if tries >= budget: break
      cand_ops = ops[:i] + ops[i + size:]
      cand = { **best, "ops": cand_ops }
      if fails(cand):
        ops, best, reduced = cand_ops, cand, True
        n = max(n - 1, 2)
        break
    if not reduced:
      if size == 1: break
      n = min(n * 2, len(ops))
  return best, tries


def dumps(o): return json.dumps(o, sort_keys=True, default=str)
