"""S05: repeater, message detector and pulse generator keep their pace and show the state their input is in."""
from __future__ import annotations

import asyncio
import time
import uuid

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, gen_net
from dst.sim import Violation

ID = "S05"
RULE = ("seeded case = loop-free network, a repeater (0.5-50 Hz), message detector (with or without time-out and repetition) or pulse generator, 10-50 valid and invalid messages and pauses in bursts and with gaps around the time-out, jumps of the system clock, delayed links, stalled scheduler; "
        "non-trivial when at least 5 messages came out and the state of the input changed; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks (repeater, messagedetector, pulsegenerator)", "streamtasks.client.topic", "streamtasks.utils (TimeSynchronizer, AsyncObservable)", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }
SLACK = 0.6


def gen(rng, tier="quick"):
  kind = rng.choice(["repeater", "repeater", "messagedetector", "messagedetector", "pulsegenerator"])
  if kind == "repeater": conf = { "rate": rng.choice([0.5, 2, 7.5, 10, 50]), "fail_closed": rng.random() < 0.5 }
  elif kind == "messagedetector": conf = { "fail_mode": rng.choice(["open", "closed"]), "time_out": rng.choice([0, 0, 0.2, 1.0, 3.0]), "repeat_interval": rng.choice([0, 0, 0, 0.1, 1.0]) }
  else: conf = { "interval": rng.choice([0.01, 0.1, 1, 2.5]), "message_type": rng.choice(["id", "ts"]) }
  ops, t, paused = [], 0.0, False
  gaps = [0.0, 0.0, 0.0, 0.001, 0.01, 0.1, 0.7, 2.0] + ([conf["time_out"]] * 3 if conf.get("time_out") else [])
  for _ in range(rng.randint(3, 8) if kind == "pulsegenerator" else rng.randint(10, 50)):
    t += rng.choice(gaps)
    r = rng.random()
    if r < 0.06: ops.append([round(t, 4), "jump", rng.choice([-3600.0, -5.0, 5.0, 3600.0, 0.3])])
    elif r < 0.12 or kind == "pulsegenerator": ops.append([round(t, 4), "settle"])
    elif r < 0.25:
      paused = not paused
      ops.append([round(t, 4), "pause", paused])
    elif r < 0.4: ops.append([round(t, 4), "junk", rng.randrange(3)])
    else: ops.append([round(t, 4), "data", rng.choice([0, 0, 0, -5000, 10**6])])
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, 1), "kind": kind, "conf": conf, "junk_paused": rng.random() < 0.3 }, "ops": ops }


JUNK = [ { "value": 1 }, "text", { "timestamp": None } ]


async def main(sim, case):
  cfg, kind, conf = case["cfg"], case["cfg"]["kind"], case["cfg"]["conf"]
  f = Flow(sim, cfg, 1, 1)
  if kind == "repeater":
    from streamtasks.system.tasks.repeater import RepeaterConfig, RepeaterTask
    make = lambda c: RepeaterTask(c, RepeaterConfig(in_topic=IN0, out_topic=OUT0, **conf))
  elif kind == "messagedetector":
    from streamtasks.system.tasks.messagedetector import MessageDetectorConfig, MessageDetectorTask
    make = lambda c: MessageDetectorTask(c, MessageDetectorConfig(in_topic=IN0, signal_topic=OUT0, **conf))
  else:
    from streamtasks.system.tasks.pulsegenerator import PulseGeneratorConfig, PulseGeneratorTask
    make = lambda c: PulseGeneratorTask(c, PulseGeneratorConfig(out_topic=OUT0, **conf))
  await f.start(make)
  start = sim.now - 1.5 # when the task was started, or slightly before
  t0 = sim.now
  base = 10**6
  ev = []              # (time, kind, payload) as sent
  paused, n, jumps = False, 0, []
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      t0 = sim.now - op[0]
    elif op[1] == "jump":
      sim.wall_jump += op[2]
      sim.fault("clock_jump")
      jumps.append(sim.now)
    elif op[1] == "pause":
      if paused == op[2]: continue
      paused = op[2]
      ev.append((sim.now, "p", paused))
      await f.pause(0, paused)
    else:
      if paused and not (kind == "messagedetector" and cfg["junk_paused"]): continue
      n += 1
      if op[1] == "junk": d = JUNK[op[2]]
      else: d = { "timestamp": base + int((sim.now - t0) * 1000) + op[2], "n": n, "x": { "y": [n] } }
      ev.append((sim.now, "j" if op[1] == "junk" else "d", d))
      await f.send(0, dict(d) if isinstance(d, dict) else d)
  await f.settle(3.0)
  end = sim.now
  if kind == "repeater": ok = repeater(sim, f, conf, ev, jumps, end)
  elif kind == "messagedetector": ok = detector(sim, f, conf, ev, jumps, start, end)
  else: ok = pulses(sim, f, conf, start, end, jumps)
  await f.stop()
  await asyncio.sleep(0.6)
  k = len(f.out)
  await asyncio.sleep(3.0)
  if len(f.out) != k: raise Violation("after-end", f"the task has ended, but {f.out[-1]} came out later")
  f.check_witness()
  return { "nontrivial": ok and len(f.out) >= 5 }


def stable(ev, begin, end, state0, step):
  """stretches (from, to, state) in which the input does not change the state"""
  out, at, state = [], begin, state0
  for e in ev:
    new = step(state, e)
    if new != state:
      out.append((at, e[0], state))
      at, state = e[0], new
  return out + [(at, end, state)]


def repeater(sim, f, conf, ev, jumps, end):
  rate = conf["rate"]
  # passed on as they are, in order
  through = [ e for e in ev if e[1] == "j" ] if not conf["fail_closed"] else []
  raw = [ v for _, _, k, v in f.out if k == "d" and not (isinstance(v, dict) and "n" in v) ]
  if [ repr(e[2]) for e in through ] != [ repr(v) for v in raw ]: raise Violation("passed-on", f"messages without a timestamp sent: {[ e[2] for e in through ]}, passed on: {raw}")
  shown, told = False, []
  for t, _, k, v in f.out:
    if k == "p":
      if v == shown: raise Violation("pause-twice", f"paused = {v} was told twice")
      shown = v
      told.append(v)
    elif shown: raise Violation("data-while-paused", f"{v} came out while the output was shown as paused")
  if told != [ e[2] for e in ev if e[1] == "p" ]: raise Violation("pause", f"the input was paused and resumed {[ e[2] for e in ev if e[1] == 'p' ]}, shown: {told}")
  outs = [ (t, v) for t, _, k, v in f.out if k == "d" and isinstance(v, dict) and "n" in v ]
  def step(s, e):
    p, cur = s
    if e[1] == "p": return (e[2], cur)
    if e[1] == "j": return (p, None if conf["fail_closed"] else cur)
    return (p, True)
  for a, b, (p, cur) in stable(ev, 0.0, end, (False, None), step):
    inside = [ t for t, _ in outs if a + SLACK <= t <= b ]
    if p or cur is None:
      if inside: raise Violation("not-quiet", f"a message came out at {inside[0]:.3f}, the input {'is paused' if p else 'has nothing to repeat'} since {a:.3f}")
    elif b - a > 2 * SLACK:
      want = (b - a - SLACK) * rate
      lo, hi = want - 1.5 - SLACK * rate, want + 2.5 + SLACK * rate
      if not lo <= len(inside) <= hi: raise Violation("pace", f"{len(inside)} messages between {a + SLACK:.3f} and {b:.3f} at {rate} Hz")
  data = [ e for e in ev if e[1] == "d" ]
  for t, v in outs:
    e = next(( e for e in data if e[2]["n"] == v["n"] ), None)
    if e is None or { **v, "timestamp": 0 } != { **e[2], "timestamp": 0 }: raise Violation("changed", f"{v} came out")
    nxt = next((x for x in data if x[2]["n"] > v["n"]), None)
    if nxt is not None and t > nxt[0] + SLACK: raise Violation("old", f"{v} was repeated at {t:.3f}, a later message was sent at {nxt[0]:.3f}")
    if any(e[0] - SLACK <= j <= t for j in jumps): continue
    if abs(v["timestamp"] - e[2]["timestamp"] - (t - e[0]) * 1000) > SLACK * 1000: raise Violation("wrong-time", f"{e[2]} sent at {e[0]:.3f} was repeated at {t:.3f} with timestamp {v['timestamp']}")
  ns = [ v["n"] for _, v in outs ]
  if ns != sorted(ns): raise Violation("old", "an earlier message was repeated after a later one")
  return len({ v["n"] for _, v in outs }) >= 2


def detector(sim, f, conf, ev, jumps, start, end):
  outs = []
  for t, _, k, v in f.out:
    if k == "p": raise Violation("pause", "the signal was shown as paused")
    if not isinstance(v, dict) or set(v) != { "timestamp", "value" } or v["value"] not in (0.0, 1.0): raise Violation("wrong-signal", f"{v} came out")
    outs.append((t, v["value"]))
    last = next((e for e in reversed(ev) if e[1] == "d" and e[0] < t - SLACK), None)
    newer = any(e[1] == "d" and t - SLACK <= e[0] <= t for e in ev)
    if last and not newer and not any(last[0] - SLACK <= j <= t for j in jumps) and abs(v["timestamp"] - last[2]["timestamp"] - (t - last[0]) * 1000) > SLACK * 1000: raise Violation("wrong-time", f"a signal at {t:.3f} has timestamp {v['timestamp']}, the input's last was {last[2]['timestamp']} at {last[0]:.3f}")
  # time-outs as events
  to = conf["time_out"]
  all_ev, at = [], start
  for e in ev:
    if e[1] == "p": continue
    if to and e[0] - at > to: all_ev.append((at + to, "t", True))
    at = e[0]
  if to and end - at > to: all_ev.append((at + to, "t", True))
  all_ev = sorted([ *all_ev, *ev ], key=lambda e: e[0])
  def step(s, e):
    p, bad, late = s
    if e[1] == "p": return (e[2], bad, late)
    if e[1] == "t": return (p, bad, True)
    return (p, e[1] == "j", False)
  value = lambda s: 0.0 if s[0] or s[2] or (s[1] and conf["fail_mode"] == "closed") else 1.0
  # the value, where it is certain: not close to anything that might have changed it
  marks = [ start, *[ e[0] for e in all_ev ], end ]
  if to: marks += [ e[0] + to for e in ev if e[1] != "p" ]
  marks.sort()
  checked = 0
  for a, b in zip(marks, marks[1:]):
    if b - a <= SLACK: continue
    s, ever0 = (False, False, False), False
    for e, nxt in zip(all_ev, [ *all_ev[1:], (end,) ]):
      if e[0] <= a:
        s = step(s, e)
        ever0 |= value(s) == 0.0 and e[0] > start + SLACK and nxt[0] - e[0] > SLACK
    for t in (a + SLACK, b):
      cur = next((v for o, v in reversed(outs) if o <= t), None)
      if cur is None and not ever0 and (not conf["repeat_interval"] or t < start + conf["repeat_interval"] + 2 * SLACK): continue # told before anybody could listen
      if cur != value(s): raise Violation("wrong-signal", f"the signal was {cur} at {t:.3f}; input paused: {s[0]}, last message invalid: {s[1]}, timed out: {s[2]}")
    checked += 1
    ri = conf["repeat_interval"]
    if ri and b - a > SLACK + ri:
      ts = [ a + SLACK, *[ o for o, _ in outs if a + SLACK <= o <= b ], b ]
      gap = max(y - x for x, y in zip(ts, ts[1:]))
      if gap > ri + SLACK: raise Violation("pace", f"the signal was not repeated for {gap:.2f} s")
  return checked >= 3 and len({ v for _, v in outs }) == 2


def pulses(sim, f, conf, start, end, jumps):
  i = conf["interval"]
  ts = [ t for t, *_ in f.out ]
  if any(k == "p" for _, _, k, _ in f.out): raise Violation("pause", "the pulse was shown as paused")
  want = (end - start) / i
  if not want * 0.9 - 2 - SLACK / i <= len(ts) <= want + 2 + SLACK / i: raise Violation("pace", f"{len(ts)} pulses in {end - start:.2f} s, interval {i}")
  for x, y in zip(ts, ts[1:]):
    if y - x > i + SLACK: raise Violation("pace", f"no pulse between {x:.3f} and {y:.3f}")
  vs = [ v for _, _, _, v in f.out ]
  if conf["message_type"] == "id":
    if any(set(v) != { "id" } for v in vs) or len({ v["id"] for v in vs }) != len(vs): raise Violation("ids", "ids are missing or not unique")
    for v in vs: uuid.UUID(v["id"])
  else:
    off = time.time() - sim.now
    for t, v in zip(ts, vs):
      if set(v) != { "timestamp" }: raise Violation("wrong-pulse", f"{v} came out")
      if not any(j > t - SLACK for j in jumps) and abs(v["timestamp"] / 1000 - off - t) > SLACK: raise Violation("wrong-time", f"a pulse at {t + off:.3f} has timestamp {v['timestamp']}")
  return True


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05, "max_steps": 400000 })
