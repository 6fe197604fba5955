"""S03: a time buffer holds every message back for its time, loses none and shows pauses when it is empty."""
from __future__ import annotations

import asyncio
import contextlib
import gc
import os
import tempfile
import time

from dst.core import execute
from dst.flowlab import IN0, OUT0, SETTLE, Flow, gen_net, timestamp
from dst.sim import Violation
from dst.weblab import scratch_dir

ID = "S03"
RULE = ("seeded case = loop-free network, a time buffer of 1-3000 ms by clock or by message time, 10-60 messages in bursts with past, present and future timestamps or none, of up to 200 kB, pauses at any moment, delayed links, stalled scheduler, stop with messages inside; "
        "non-trivial when at least 5 messages were held back; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.timebuffer", "streamtasks.rawdatabuffer (on a scratch directory)", "streamtasks.client.topic", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }
SLACK = 0.6


def gen(rng, tier="quick"):
  ops, t, paused = [], 0.0, False
  size = rng.choice([1, 5, 20, 100, 400, 1000, 3000])
  mode = rng.choice(["clock", "clock", "message"])
  kinds = rng.random() < 0.3
  for _ in range(rng.randint(10, 60)):
    t += rng.choice([0.0, 0.0, 0.0, 0.0005, 0.005, 0.03, 0.3, size / 2500])
    r = rng.random()
    if r < 0.1:
      paused = not paused
      ops.append([round(t, 4), "pause", paused])
    elif r < 0.17: ops.append([round(t, 4), "settle"])
    elif not paused: ops.append([round(t, 4), "data", None if kinds and rng.random() < 0.2 else rng.choice([0, 0, 0, 0, -10, -size, -5000, 7, 200]), rng.choice([10, 10, 10, 3000, 200000 if rng.random() < 0.1 else 10])])
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, 1), "mode": mode, "size": size, "stop_full": rng.random() < 0.4 }, "ops": ops }


async def main(sim, case):
  from streamtasks.system.tasks.timebuffer import TimeBufferConfig, TimeBufferTask
  cfg = case["cfg"]
  clock, size = cfg["mode"] == "clock", cfg["size"] / 1000
  f = Flow(sim, cfg, 1, 1)
  await f.start(lambda c: TimeBufferTask(c, TimeBufferConfig(in_topic=IN0, out_topic=OUT0, time_reference=cfg["mode"], size=cfg["size"])))
  wall = lambda: time.time()
  offset = wall() - sim.now           # the clocks differ by a constant in these runs
  sent = []                           # (sim time, timestamp in ms or None, number, pauses before)
  paused, pauses = False, []
  t0 = sim.now
  def check(now, stopping=False):
    out = [ (t, d) for t, _, k, d in f.out if k == "d" ]
    if [ d["n"] for _, d in out ] != [ s[2] for s in sent[:len(out)] ]: raise Violation("wrong-order", f"sent {[ s[2] for s in sent ]}, came out {[ d['n'] for _, d in out ]}")
    last, newest = 0.0, None
    for k, (t, d) in enumerate(out):
      if repr(d) != repr(f.sent[0][k]): raise Violation("changed", f"message {sent[k][2]} came out as {repr(d)[:200]}")
      at, ts, n, _ = sent[k]
      if ts is None: continue
      if clock:
        if t + offset < ts / 1000 + size - 0.002: raise Violation("early", f"message {n} with timestamp {ts} came out at {(t + offset) * 1000:.0f}, {cfg['size']} ms after that is later")
      elif not any(o[1] is not None and o[1] - ts >= cfg["size"] and o[0] <= t for o in sent[k + 1:]) and not any(p and a <= t for a, p in pauses):
        raise Violation("early", f"message {n} with timestamp {ts} came out before a message {cfg['size']} ms younger was there")
    if stopping: return
    # what has to be out by now
    due = 0.0
    for k, (at, ts, n, _) in enumerate(sent):
      if clock: due = max(due, at, 0.0 if ts is None else ts / 1000 + size - offset)
      else:
        top = sent[-1][1]
        if k == len(sent) - 1 or ts is not None and (top is None or top - ts < cfg["size"]): break
        due = max(due, sent[-1][0])
      if due + SLACK > now: break
      if k >= len(out): raise Violation("late", f"message {n} sent at {at:.3f} with timestamp {ts} should have come out at {due:.3f}, it is {now:.3f}")
    shown = next((v for _, _, k, v in reversed(f.out) if k == "p"), False)
    held = len(sent) - len(out)
    quiet = not sent or now > sent[-1][0] + SLACK
    if quiet and (not pauses or now > pauses[-1][0] + SLACK):
      if shown and not paused: raise Violation("paused", "the output is shown as paused, the input is not")
      if shown and held: raise Violation("paused", f"the output is shown as paused with {held} messages still inside")
      if paused and not shown and held == 0 and (not clock or due + SLACK <= now): raise Violation("not-paused", "the input is paused and nothing is left inside, but the output is not shown as paused")
  def check_pauses(): # nothing comes out of a paused output
    p = False
    for t, _, k, v in f.out:
      if k == "p":
        if p == v: raise Violation("pause-twice", f"paused = {v} was told twice")
        p = v
      elif p and clock: raise Violation("data-while-paused", f"message {v['n']} came out while the output was shown as paused")
  n = 0
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      check(sim.now)
      t0 = sim.now - op[0]
    elif op[1] == "pause":
      if op[2] == paused: continue
      paused = op[2]
      pauses.append((sim.now, paused))
      await f.pause(0, paused)
    else:
      n += 1
      ts = None if op[2] is None else int(wall() * 1000) + op[2]
      sent.append((sim.now, ts, n, None))
      await f.send(0, { **({} if ts is None else { "timestamp": ts }), "n": n, "x": "x" * op[3] })
  if not cfg["stop_full"]:
    await f.settle(SETTLE + size + 6.0)
    check(sim.now)
  else: await f.settle(0.02)
  check_pauses()
  await f.stop()
  await asyncio.sleep(1.0)
  f.check_witness()
  check(sim.now, stopping=True)
  held = sum(1 for k, o in enumerate([ o for o in f.out if o[2] == "d" ]) if o[0] > sent[k][0] + size / 2)
  del f.obj, f.task
  for _ in range(3): await asyncio.sleep(0.1)
  gc.collect()
  left = os.listdir(tempfile.tempdir)
  if left: raise Violation("files-left", f"the task has ended and left {len(left)} files in the temporary directory")
  return { "nontrivial": held >= 5 }


@contextlib.contextmanager
def scratch(sim):
  with scratch_dir("dst-s") as d:
    old, tempfile.tempdir = tempfile.tempdir, d
    try: yield
    finally: tempfile.tempdir = old


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, inside=scratch, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
