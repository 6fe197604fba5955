"""S04: a replay buffer plays what it recorded, at the pace it was recorded, when told to and only then."""
from __future__ import annotations

import asyncio
import contextlib
import gc
import os
import tempfile

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, gen_net
from dst.sim import Violation
from dst.weblab import scratch_dir

ID = "S04"
RULE = ("seeded case = loop-free network, a replay buffer with or without loop, 4-14 phases of recording (also while it plays), starting over, playing and stopping at any moment and in quick succession, repeated and invalid signals, messages without timestamp, delayed links, stalled scheduler, stop while playing; "
        "non-trivial when at least 5 messages were played in two sessions; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.replaybuffer", "streamtasks.rawdatabuffer (on a scratch directory)", "streamtasks.client.topic", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }
SLACK = 0.6


def gen(rng, tier="quick"):
  ops, ts, on, fresh, t = [], 10**6, False, True, 0.0
  loop = rng.random() < 0.4
  def at(op): ops.append([round(t, 4), *op])
  def record(n):
    nonlocal ts, t
    for k in range(n):
      if loop and k == 1: ts += 300 # a loop that takes no time only floods the network, but see below
      ts += rng.choice([0, 1, 20, 20, 100, 400])
      at(["rec", None if rng.random() < 0.1 and not (loop and k < 2) else ts])
      t += rng.choice([0.0, 0.0, 0.001, 0.02, 0.1])
  single = not loop and rng.random() < 0.2
  if loop and rng.random() < 0.1: # a single message over and over: still to be stopped
    record(1)
    for op in (["settle"], ["play", 1], ["play", 0], ["settle"]):
      at(op)
      if op[0] == "play": t += rng.choice([0.02, 0.1])
    return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, 2), "loop": loop, "base": 0, "stop_playing": False }, "ops": ops }
  for _ in range(rng.randint(4, 14)):
    r = rng.random()
    if fresh or r < 0.3:
      record(1 if single else rng.randint(1 + loop, 8))
      fresh = False
      if rng.random() < 0.6: at(["settle"])
    elif r < 0.6:
      on = not on
      if on: at(["settle"])
      at(["play", rng.choice([0.6, 1, 2.0]) if on else rng.choice([0, 0.5, -1.0])])
      t += rng.choice([0.0, 0.003, 0.05, 0.3, 1.0, 3.0])
    elif r < 0.7: # in quick succession
      for _ in range(rng.randint(2, 5)):
        on = not on
        at(["play", 1 if on else 0])
        t += rng.choice([0.0, 0.0, 0.001, 0.02])
        if rng.random() < 0.3: record(1)
    elif r < 0.8: at(rng.choice([["play", 1 if on else 0], ["junk"], ["pause"]]))
    elif r < 0.9 and not on:
      at(["restart"])
      fresh = True
    else: at(["settle"])
    t += rng.choice([0.0, 0.01, 0.5])
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, 2), "loop": loop, "base": rng.choice([0, 10**6, 1700000000000]), "stop_playing": rng.random() < 0.5 }, "ops": ops }


async def main(sim, case):
  from streamtasks.system.tasks.replaybuffer import ReplayBufferConfig, ReplayBufferTask
  cfg = case["cfg"]
  loop = cfg["loop"]
  f = Flow(sim, cfg, 2, 1)
  await f.start(lambda c: ReplayBufferTask(c, ReplayBufferConfig(in_topic=IN0, play_topic=IN0 + 1, out_topic=OUT0, loop=loop)))
  t0 = start = sim.now
  rec, nrec = [], 0             # (time, n, payload) since the last restart
  takes = [rec]                 # all recordings
  orders = []                   # (time, on, recording)
  on = False
  clock = lambda at: cfg["base"] + (at - start) * 1000
  played = sessions = 0
  def find(n): return next(( r, k) for r in takes for k, e in enumerate(r) if e[1] == n)
  def check(now):
    nonlocal played, sessions
    shown, ses = False, { "t": start, "pass": [], "passes": 0, "rec": None } # an output is not paused at first
    played = sessions = 0
    for t, _, k, v in f.out:
      if k == "p":
        if v == shown: continue # an announcement was cut short by the stop
        shown = v
        if v:
          if ses: finish(ses, t)
          ses = None
        else: ses = { "t": t, "pass": [], "passes": 0, "rec": None }
        continue
      if ses is None: raise Violation("not-playing", f"message {v.get('n')} came out while the output was shown as paused or before anything was played")
      r, i = find(v["n"])
      e = r[i]
      if ses["rec"] is None:
        ses["rec"] = r
        if not any(o <= t and on_ for o, on_, _ in orders): raise Violation("not-playing", f"message {v['n']} came out though nothing was to be played")
        last_on = max(o for o, on_, _ in orders if on_ and o <= t)
        sessions += 1
      elif ses["rec"] is not r: raise Violation("wrong-order", f"message {v['n']} of another recording")
      if i == 0 and ses["pass"]:
        if not loop: raise Violation("again", "the recording was played twice")
        complete(ses)
        ses["pass"] = []
        ses["passes"] += 1
      if i != len(ses["pass"]): raise Violation("wrong-order", f"message {v['n']} came out as number {len(ses['pass'])} of the recording, it was recorded as number {i}")
      if i == 0: ses["begin"] = t
      ts = e[2].get("timestamp")
      x = dict(v)
      got = x.pop("timestamp", None)
      if repr(x) != repr({ a: b for a, b in e[2].items() if a != "timestamp" }) or (ts is None) != (got is None): raise Violation("changed", f"{e[2]} came out as {v}")
      if ts is not None:
        first = next((p for p in ses["pass"] if p[1] is not None), None)
        if first is None:
          if abs(got - clock(t)) > SLACK * 1000: raise Violation("wrong-time", f"message {v['n']} came out with timestamp {got} at {clock(t):.0f} of the play signal's clock")
        else:
          d = (ts - first[1]) / 1000
          if got - first[2] != ts - first[1]: raise Violation("wrong-time", f"message {v['n']}, {ts - first[1]} ms after the first one, came out with a timestamp {got - first[2]} ms later")
          late = max([ first[0] + d, e[0], *[ p[0] for p in ses["pass"] ] ])
          if t < first[0] + d - SLACK or t > late + SLACK: raise Violation("wrong-pace", f"message {v['n']}, {ts - first[1]} ms after the first one, came out {(t - first[0]) * 1000:.0f} ms after it")
      ses["pass"].append((t, ts, got))
      played += 1
    # what has to be the case by now
    last = max([ o[0] for o in orders ], default=0.0)
    if not on:
      if orders and now > last + SLACK:
        if not shown: raise Violation("not-stopped", f"told to stop at {last:.3f}, the output is not shown as paused at {now:.3f}")
        if any(k == "d" and t > last + SLACK for t, _, k, v in f.out): raise Violation("not-stopped", "messages came out after the stop")
    elif now > last + SLACK and rec:
      since = max(t for k, (t, o, _) in enumerate(orders) if o and (k == 0 or not orders[k - 1][1])) # the last switching on
      settled = [ e for e in rec if e[0] < since - SLACK ]
      if settled and now > since + SLACK:
        run = [ o for o in f.out if o[2] == "d" and o[0] > since ]
        if not run: raise Violation("not-playing", f"told to play at {since:.3f}, nothing has come out at {now:.3f}")
        if ses is None and loop: raise Violation("not-playing", "a looped recording ended by itself")
        if ses is not None:
          length, first = 0, None
          for e in settled:
            ts = e[2].get("timestamp")
            if ts is None: continue
            if first is None: first = ts
            length = max(length, (ts - first) / 1000)
          if now > ses["begin"] + length + SLACK and len(ses["pass"]) < len(settled): raise Violation("stuck", f"message {settled[len(ses['pass'])][1]} of the recording has not come out")
          if not loop:
            end = max(ses["pass"][-1][0], rec[-1][0], ses["begin"] + max([ 0, *[ (e[2]["timestamp"] - first) / 1000 for e in rec if first is not None and "timestamp" in e[2] ] ]))
            if now > end + 2 * SLACK: raise Violation("not-ended", "the recording has been played, but the output is not shown as paused")
  def complete(ses):
    known = sum(1 for e in ses["rec"] if e[0] < ses["begin"] - SLACK)
    if len(ses["pass"]) < known: raise Violation("cut-short", f"{len(ses['pass'])} of {known} recorded messages were played")
  def finish(ses, t):
    off = any(not o and ses["t"] - SLACK <= at <= t for at, o, _ in orders)
    if ses["rec"] is None:
      if not off and ses["t"] != start: raise Violation("not-playing", "the output was shown as playing, nothing came out")
    elif not off: complete(ses)
  async def play(v):
    nonlocal on
    on = v > 0.5
    orders.append((sim.now, on, rec))
    await f.send(1, { "timestamp": int(clock(sim.now)), "value": v })
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      check(sim.now)
      t0 = sim.now - op[0]
    elif op[1] == "play": await play(op[2])
    elif op[1] == "junk": await f.send(1, { "timestamp": "x", "value": 1 })
    elif op[1] == "pause":
      await f.pause(0, True)
    elif op[1] == "restart":
      if on: continue # left out by shrinking
      await f.settle()
      await f.pause(0, True)
      await f.pause(0, False)
      rec = []
      takes.append(rec)
      await f.settle()
      t0 = sim.now - op[0]
    else:
      if f.sources[0].is_paused and op[1] == "rec": # recording goes on after a pause: a new one
        await f.settle()
        if on: await play(0)
        await f.settle()
        await f.pause(0, False)
        await f.settle()
        rec = []
        takes.append(rec)
        t0 = sim.now - op[0]
      nrec += 1
      d = { **({} if op[2] is None else { "timestamp": op[2] }), "n": nrec, "x": [nrec] }
      rec.append((sim.now, nrec, d))
      await f.send(0, d)
  await f.settle(3.0)
  check(sim.now)
  if on and not cfg["stop_playing"]:
    await play(0)
    await f.settle()
    check(sim.now)
  await f.stop()
  n = len(f.out)
  await asyncio.sleep(0.6)
  n = len(f.out)
  await asyncio.sleep(3.0)
  if len(f.out) != n: raise Violation("after-end", f"the task has ended, but {f.out[-1]} came out later")
  f.check_witness()
  del f.obj, f.task
  gc.collect()
  return { "nontrivial": played >= 5 and sessions >= 2 }


@contextlib.contextmanager
def scratch(sim):
  with scratch_dir("dst-s") as d:
    old, tempfile.tempdir = tempfile.tempdir, d
    try: yield
    finally: tempfile.tempdir = old


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, inside=scratch, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05, "max_steps": 400000 })
