"""Entry point of every check:
  main.py --property ID [--tier quick|thorough]   search seeds, report a violation
  main.py --replay FILE                            re-execute one recorded run
  main.py --crc ID INDEX...                        event-log fingerprints (self-test)
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import re
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from dst.core import HarnessError, dumps, setup_repo, shrink  # noqa: E402
from dst.sim import sub_rng  # noqa: E402

TIME = { "quick": 45.0, "thorough": 600.0 }


def load(pid): return importlib.import_module("dst.checks." + pid.lower())


def case_for(mod, seed, index, tier):
  return mod.gen(sub_rng(seed, mod.ID, index), tier)


def load_findings(pid):
  path = os.path.join(VERIF, "known_findings.json")
  if not os.path.exists(path): return []
  with open(path) as fd: data = json.load(fd)
  return [ f for f in data["findings"] if f["property"] == pid ]


def matches(finding, kind, msg):
  return finding["kind"] == kind and re.search(finding["match"], msg or "") is not None


def worker(mod, wid, n_workers, count, seed, tier, deadline, out_fd, findings):
  out = os.fdopen(out_fd, "w", buffering=1)
  agg = { "runs": 0, "steps": 0, "sim_time": 0.0, "faults": {}, "probes": {}, "nontrivial": 0, "reorders": 0 }
  crcs, states, nt_crcs = set(), set(), set()
  sample = None
  for i in range(wid, count, n_workers):
    if time.monotonic() > deadline: break
    case = case_for(mod, seed, i, tier)
    try: r = mod.run(case)
    except HarnessError as e:
      out.write(json.dumps({ "t": "error", "i": i, "error": str(e)[-4000:] }) + "\n")
      break
    agg["runs"] += 1
    agg["steps"] += r["steps"]
    agg["sim_time"] += r["sim_time"]
    agg["reorders"] += r["reorders"]
    for k, v in r["faults"].items(): agg["faults"][k] = agg["faults"].get(k, 0) + v
    for k, v in r["probes"].items(): agg["probes"][k] = agg["probes"].get(k, 0) + v
    crcs.add(r["crc"])
    for s in r["states"]:
      if len(states) < 200000: states.add(hash_state(s))
    if r["violation"]:
      known = any(matches(f, *r["violation"]) for f in findings)
      out.write(json.dumps({ "t": "viol", "i": i, "kind": r["violation"][0], "msg": r["violation"][1], "known": known }) + "\n")
    nontrivial = bool(r["info"] and r["info"].get("nontrivial"))
    if nontrivial:
      agg["nontrivial"] += 1
      nt_crcs.add(r["crc"])
      if sample is None: sample = { "index": i, "case": case, "steps": r["steps"], "sim_time": r["sim_time"], "crc": r["crc"] }
  agg["t"] = "done"
  agg["distinct_crc"] = sorted(crcs)
  agg["nt_crc"] = sorted(nt_crcs)
  agg["states"] = sorted(states)
  agg["sample"] = sample
  out.write(json.dumps(agg) + "\n")
  out.close()


def hash_state(s): return hashlib.blake2b(repr(s).encode(), digest_size=6).hexdigest()


def run_workers(mod, n_workers, count, seed, tier, seconds, findings):
  deadline = time.monotonic() + seconds
  procs = {}
  for w in range(n_workers):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(r)
      code = 0
      try: worker(mod, w, n_workers, count, seed, tier, deadline, wfd, findings)
      except BaseException:
        code = 3
        try: os.write(wfd, (json.dumps({ "t": "error", "i": -1, "error": traceback.format_exc()[-4000:] }) + "\n").encode())
        except OSError: pass
      finally: os._exit(code)
    os.close(wfd)
    procs[r] = [pid, b""]
  msgs = []
  stop_at = None
  hard = deadline + 150
  while procs:
    ready, _, _ = select.select(list(procs), [], [], 1.0)
    for fd in ready:
      chunk = os.read(fd, 1 << 16)
      if chunk:
        procs[fd][1] += chunk
        *lines, rest = procs[fd][1].split(b"\n")
        procs[fd][1] = rest
        for ln in lines:
          m = json.loads(ln)
          msgs.append(m)
          if m["t"] == "viol" and not m["known"] and stop_at is None: stop_at = time.monotonic() + 3.0
      else:
        os.close(fd)
        os.waitpid(procs[fd][0], 0)
        del procs[fd]
    if (stop_at is not None and time.monotonic() > stop_at) or time.monotonic() > hard:
      for fd, (pid, _) in list(procs.items()):
        try: os.kill(pid, 9)
        except ProcessLookupError: pass
        os.waitpid(pid, 0)
        os.close(fd)
      if stop_at is None: msgs.append({ "t": "error", "i": -1, "error": "worker exceeded the hard deadline" })
      procs = {}
  return msgs


def sub_python(args, hashseed="0", timeout=120):
  env = { **os.environ, "PYTHONHASHSEED": hashseed }
  return subprocess.run([sys.executable, os.path.abspath(__file__), *args], capture_output=True, text=True, env=env, timeout=timeout)


def self_test(mod, seed, tier, indices):
  """Same seeds, fresh interpreters, different PYTHONHASHSEED: identical event logs?"""
  mism, n = 0, 0
  try:
    a = sub_python(["--crc", mod.ID, str(seed), tier, *map(str, indices)], "0")
    b = sub_python(["--crc", mod.ID, str(seed), tier, *map(str, reversed(indices))], "4242")
    da, db = json.loads(a.stdout), json.loads(b.stdout)
    for k in da:
      n += 1
      mism += da[k] != db.get(k)
  except Exception as e: return { "compared": n, "mismatches": mism, "error": str(e)[:200] }
  return { "compared": n, "mismatches": mism }


def write_evidence(pid, ev):
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  path = os.path.join(VERIF, "evidence", f"{pid}.json")
  with open(path + ".tmp", "w") as fd: json.dump(ev, fd, indent=1, default=str)
  os.replace(path + ".tmp", path)


def check(pid, tier, seed, seconds=None, count=None, n_workers=None):
  t0 = time.monotonic()
  mod = load(pid)
  findings = load_findings(pid)
  seconds = seconds or getattr(mod, "SECONDS", TIME)[tier]
  count = count or getattr(mod, "COUNT", { "quick": 6000, "thorough": 400000 })[tier]
  n_workers = n_workers or min(8, os.cpu_count() or 1)
  print(f"property {pid} tier={tier} VERIF_SEED={seed} workers={n_workers} budget={seconds:.0f}s", flush=True)
  msgs = run_workers(mod, n_workers, count, seed, tier, seconds, findings)
  search_s = time.monotonic() - t0
  errors = [ m for m in msgs if m["t"] == "error" ]
  viols = sorted((m for m in msgs if m["t"] == "viol"), key=lambda m: m["i"])
  done = [ m for m in msgs if m["t"] == "done" ]
  agg = { "runs": 0, "steps": 0, "sim_time": 0.0, "nontrivial": 0, "reorders": 0 }
  faults, probes, crcs, ntc, states = {}, {}, set(), set(), set()
  for m in done:
    for k in agg: agg[k] += m[k]
    for k, v in m["faults"].items(): faults[k] = faults.get(k, 0) + v
    for k, v in m["probes"].items(): probes[k] = probes.get(k, 0) + v
    crcs.update(m["distinct_crc"]); ntc.update(m["nt_crc"]); states.update(m["states"])
  samples = [ m["sample"] for m in done if m["sample"] ]
  samples.sort(key=lambda s: len(dumps(s)))
  unknown = [ v for v in viols if not v["known"] ]
  known = [ v for v in viols if v["known"] ]
  exit_code = 0
  replay_path = None
  if unknown:
    v = unknown[0]
    replay_path, info = report(mod, pid, tier, seed, v)
    exit_code = 1
  elif errors:
    print("HARNESS-ERROR", errors[0]["error"], file=sys.stderr, flush=True)
    exit_code = 2
  elif agg["runs"] == 0 or not ntc:
    print("HARNESS-ERROR no non-trivial run was executed", file=sys.stderr, flush=True)
    exit_code = 2
  det = self_test(mod, seed, tier, list(range(0, 16))) if exit_code == 0 else None
  wall = time.monotonic() - t0
  ev = {
    "property": pid, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
      "evaluations": agg["runs"],
      "distinct_nontrivial": len(ntc),
      "rule": mod.RULE,
      "samples": samples[:2] if samples else [ { "note": "search stopped early by a violation", "violation": unknown[0] if unknown else None } ],
      "runs_per_hour": round(agg["runs"] / max(search_s, 0.001) * 3600),
      "seeds_per_hour": round(agg["runs"] / max(search_s, 0.001) * 3600),
      "simulated_seconds": round(agg["sim_time"], 3),
      "scheduler_steps": agg["steps"],
      "task_reorderings": agg["reorders"],
      "distinct_interleavings": len(crcs),
      "distinct_states": len(states),
      "interleaving_measure": "CRC-32 over every (virtual time, callback) the scheduler executed plus recorded operations; states: check-specific abstraction tuples",
      "faults_injected": faults,
      "probes": probes,
      "components_real": mod.REAL,
      "components_stub": mod.STUB,
      "determinism_self_test": det,
      "known_findings_hit": len(known),
    },
    "assumptions": getattr(mod, "ASSUMPTIONS", []),
    "wall_s": round(wall, 2),
    "violations": len(unknown),
  }
  write_evidence(pid, ev)
  for f in findings: print(f"KNOWN-FINDING: property={pid} {f['what']} (seen in {sum(matches(f, k['kind'], k['msg']) for k in known)} runs)")
  print(f"runs={agg['runs']} nontrivial={agg['nontrivial']} steps={agg['steps']} sim_s={agg['sim_time']:.0f} interleavings={len(crcs)} faults={dumps(faults)} wall={wall:.1f}s determinism={det}")
  if exit_code == 1:
    print(f"VIOLATION property={pid} replay={replay_path}", flush=True)
  return exit_code


def report(mod, pid, tier, seed, v):
  case = case_for(mod, seed, v["i"], tier)
  os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
  kind = v["kind"]
  tries = 0
  small = case
  if kind not in ("hang",):
    t_end = time.monotonic() + 60
    def run_limited(c):
      if time.monotonic() > t_end: return { "violation": None }
      return mod.run(c)
    try: small, tries = shrink(case, run_limited, kind, extra=getattr(mod, "simplify", None))
    except BaseException as e: print(f"minimisation stopped: {e!r}")
  r = { "violation": (kind, v["msg"]), "crc": None, "log": [] }
  try: r = mod.run(small, keep_log=True)
  except BaseException as e: print(f"re-run failed: {e!r}")
  if not r["violation"] or r["violation"][0] != kind:
    small, r = case, { "violation": (kind, v["msg"]), "crc": None, "log": [] }
  h = hashlib.blake2b(dumps(small).encode(), digest_size=5).hexdigest()
  path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
  with open(path, "w") as fd:
    json.dump({ "property": pid, "seed": seed, "index": v["i"], "case": small, "violation": list(r["violation"]), "crc": r["crc"],
                "ops_before": len(case["ops"]), "ops_after": len(small["ops"]), "shrink_runs": tries, "trace_tail": r.get("log", [])[-400:] }, fd, indent=1, default=str)
  print(f"violation {r['violation'][0]}: {r['violation'][1]}")
  print(f"seed index {v['i']}; minimised from {len(case['ops'])} to {len(small['ops'])} operations in {tries} runs")
  try:
    rr = sub_python(["--replay", path], timeout=150)
    same = rr.returncode == 1 and f"crc={r['crc']}" in rr.stdout
    print(f"replay in a fresh process: {'reproduced exactly' if same else 'NOT identical: ' + rr.stdout[-200:]}")
  except Exception as e: print(f"replay check failed: {e!r}")
  return path, r


def replay(path):
  with open(path) as fd: rec = json.load(fd)
  mod = load(rec["property"])
  r = mod.run(rec["case"], keep_log=True)
  print(f"violation={r['violation']} crc={r['crc']} expected={rec['violation']} expected_crc={rec['crc']}")
  if r["violation"] is None:
    print("not reproduced on this tree")
    return 0
  print(f"VIOLATION property={rec['property']} replay={path}")
  return 1


def main():
  if os.environ.get("PYTHONHASHSEED") is None:
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]], { **os.environ, "PYTHONHASHSEED": "0" })
  ap = argparse.ArgumentParser()
  ap.add_argument("--property")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
  ap.add_argument("--seconds", type=float)
  ap.add_argument("--count", type=int)
  ap.add_argument("--workers", type=int)
  ap.add_argument("--replay")
  ap.add_argument("--crc", nargs="+")
  ap.add_argument("--setup", action="store_true")
  a = ap.parse_args()
  try:
    setup_repo()
    if a.setup:
      print("streamtasks imports from the working tree; nothing to build")
      return 0
    if a.crc:
      mod = load(a.crc[0])
      print(json.dumps({ i: mod.run(case_for(mod, int(a.crc[1]), int(i), a.crc[2]))["crc"] for i in a.crc[3:] }))
      return 0
    if a.replay: return replay(a.replay)
    return check(a.property, a.tier, a.seed, a.seconds, a.count, a.workers)
  except HarnessError as e:
    print("HARNESS-ERROR", e, file=sys.stderr)
    return 2


if __name__ == "__main__":
  code = main()
  sys.stdout.flush()
  os._exit(code)
