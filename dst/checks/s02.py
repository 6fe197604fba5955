"""S02: tasks with several inputs combine them in timestamp order."""
from __future__ import annotations

import asyncio

from dst.core import HarnessError, execute
from dst.flowlab import IN0, OUT0, Flow, Frozen, Hand, freeze, gen_net
from dst.sim import Violation

ID = "S02"
RULE = ("seeded case = loop-free network, one of gate, switch, media switch, SR latch, string concatenator, text formatter, calculator, synchronizer (synchronised or not), 2-4 inputs from different places, 15-70 valid and invalid messages with rising and equal timestamps, "
        "pauses, delayed links, stalled scheduler; after each phase the output is compared with all outputs a reference model allows; non-trivial when at least 5 messages came out and two inputs took part; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks (gate, switch, mediaswitch, srlatch, stringconcatenator, textformatter, calculator, synchronizer)", "streamtasks.client.topic (synchronised topics)", "streamtasks.message", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }

TASKS = ["gate", "gate", "switch", "mediaswitch", "srlatch", "stringconcatenator", "textformatter", "calculator", "synchronizer"]
SWITCHES = ("switch", "mediaswitch")
JUNK = [ "text", [1], { "value": 1.0 }, { "timestamp": None }, { "timestamp": "x", "value": 0 } ]


def gen(rng, tier="quick"):
  kind = rng.choice(TASKS)
  n = { "gate": 2, "srlatch": 2, "stringconcatenator": 2 }.get(kind) or (rng.choice([2, 4]) if kind in SWITCHES else rng.randint(2, 4))
  synced = True if kind in (*SWITCHES, "synchronizer") else rng.random() < 0.7
  conf = { "synchronized": synced }
  if kind == "gate": conf |= { "fail_mode": rng.choice(["open", "closed"]), "initial_control": rng.random() < 0.5 }
  if kind == "srlatch": conf |= { "default_value": rng.random() < 0.5 }
  if kind == "calculator": conf |= { "formula": rng.choice(["sum", "nest"]) }
  ops, t, clock = [], 0.0, 1000
  last, paused = [0] * n, [False] * n
  ties = rng.random() < 0.5 and kind in ("gate", "stringconcatenator", "srlatch", "synchronizer")
  def settle():
    nonlocal t
    ops.append([round(t, 4), "settle"])
  for _ in range(rng.randint(3, 12)):
    if rng.random() < 0.45: # one input on its own
      i = rng.randrange(n)
      who, free = [ i ], True
    else: who, free = rng.sample(range(n), rng.randint(2, n)), False
    for _ in range(rng.randint(1, 9)):
      t += rng.choice([0.0, 0.0, 0.0005, 0.003, 0.02])
      i = rng.choice(who)
      r = rng.random()
      if r < (0.25 if free else 0.05):
        paused[i] = not paused[i]
        ops.append([round(t, 4), "pause", i, paused[i]])
      elif r < 0.3: ops.append([round(t, 4), "junk", i, rng.randrange(len(JUNK)), 0])
      else:
        if paused[i] and rng.random() < 0.8: continue
        clock += rng.choice([0, 1, 1, 5]) if not ties else rng.choice([0, 0, 1, 3])
        ts = max(clock, last[i] + (1 if rng.random() < 0.9 else 0))
        last[i] = ts
        ops.append([round(t, 4), "bad" if rng.random() < 0.12 else "data", i, ts, rng.randrange(100)])
    settle()
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, n), "kind": kind, "n": n, "conf": conf, "ties": ties }, "ops": ops }


def stamp_of(op, n, ties): return op[3] if ties else op[3] * n + op[2]


def build(kind, conf, n, client):
  import importlib
  m = importlib.import_module(f"streamtasks.system.tasks.{'media.' if kind == 'mediaswitch' else ''}{kind}")
  if kind == "gate": return m.GateTask(client, m.GateConfig.model_validate({ "in_topic": IN0, "control_topic": IN0 + 1, "out_topic": OUT0, **conf }))
  if kind in SWITCHES: return (m.SwitchTask if kind == "switch" else m.MediaSwitchTask)(client, m.SwitchConfig.model_validate({ "pairs": [ { "input": IN0 + 2 * k, "control": IN0 + 2 * k + 1 } for k in range(n // 2) ], "output": OUT0 }))
  if kind == "srlatch": return m.SRLatchTask(client, m.SRLatchConfig.model_validate({ "set_topic": IN0, "reset_topic": IN0 + 1, "out_topic": OUT0, **conf }))
  if kind == "stringconcatenator": return m.StringConcatenatorTask(client, m.StringConcatenatorConfig.model_validate({ "in_topic": IN0, "control_topic": IN0 + 1, "out_topic": OUT0, **conf }))
  if kind == "textformatter": return m.TextFormatterTask(client, m.TextFormatterConfig.model_validate({ "out_topic": OUT0, "template": "".join("[{v%d}]" % i for i in range(n)), "synchronized": conf["synchronized"], "variable_tracks": [ { "name": f"v{i}", "default_text": f"d{i}", "in_topic": IN0 + i } for i in range(n) ] }))
  if kind == "calculator":
    f = " + ".join(f"v{i} * {10 ** i}" for i in range(n)) if conf["formula"] == "sum" else "max(v0, v1) - min(v0, v1)"
    return m.CalculatorTask(client, m.CalculatorConfig.model_validate({ "out_topic": OUT0, "formula": f, "synchronized": conf["synchronized"], "variable_tracks": [ { "name": f"v{i}", "default_value": float(i + 1), "in_topic": IN0 + i } for i in range(n) ] }))
  return m.SynchronizerTask(client, m.SynchronizerConfig.model_validate({ "topics": [ (IN0 + i, OUT0 + i) for i in range(n) ] }))


# -- reference models: state, (state, input, event) -> (state, [outputs])
# an output is (output number, "d" or "p", frozen payload or bool)

def num(d): return isinstance(d, dict) and isinstance(d.get("timestamp"), int) and isinstance(d.get("value"), (int, float))
def txt(d): return isinstance(d, dict) and isinstance(d.get("timestamp"), int) and isinstance(d.get("value"), str)
def packet(d): return isinstance(d.get("packet"), dict) and "is_keyframe" in d["packet"]
def put(j, paused, new): # pauses are only told when they change
  return [] if paused == new else [ (j, "p", new) ]


def model(kind, conf, n):
  if kind == "gate":
    def step(s, i, ev):
      control, cpaused, cerr, ipaused = s
      if ev[0] == "p": return ((control, cpaused, cerr, ev[1]) if i == 0 else (control, ev[1], cerr, ipaused)), []
      d = ev[1]
      if i == 1:
        if num(d): return (d["value"] > 0.5, cpaused, False, ipaused), []
        return (control, cpaused, True, ipaused), []
      return s, [ (0, "d", freeze(dict(d) if isinstance(d, dict) else d)) ] if gate_open(conf, s) else []
    return (conf["initial_control"], False, False, False), step
  if kind in SWITCHES:
    def sel(c): return None if not c else max(c, key=lambda kv: kv[1])[0]
    def step(s, i, ev):
      controls, paused, out, live = s # live: the input whose packets have been passed on without a gap
      k = i // 2
      if i % 2 == 0:
        if ev[0] == "p": paused = paused[:k] + (ev[1],) + paused[k+1:]
        if sel(controls) != k: return (controls, paused, out, None if live == k and ev[0] == "d" else live), []
        outs = put(0, out, paused[k])
        if ev[0] == "d":
          if packet(ev[1]) and ev[1]["packet"]["is_keyframe"]: live = k
          if kind == "switch" or live == k: outs.append((0, "d", freeze(dict(ev[1]))))
        return (controls, paused, paused[k], live), outs
      c = dict(controls)
      if ev[0] == "p":
        if not ev[1]: return s, []
        c.pop(k, None)
      elif num(ev[1]): c[k] = ev[1]["value"]
      else: return s, []
      controls = tuple(sorted(c.items()))
      now = sel(controls)
      if now is None: return (controls, paused, out, live), []
      return (controls, paused, paused[now], live), put(0, out, paused[now])
    return ((), (False,) * (n // 2), False, None), step
  if kind == "srlatch":
    def step(s, i, ev):
      if ev[0] == "p" or not num(ev[1]): return s, []
      v = ev[1]["value"] > 0.5
      st, re, val = (v, s[1], s[2]) if i == 0 else (s[0], v, s[2])
      if st and not re: val = True
      if re and not st: val = False
      return (st, re, val), [ (0, "d", freeze({ "timestamp": ev[1]["timestamp"], "value": float(val) })) ]
    return (False, False, conf["default_value"]), step
  if kind == "stringconcatenator":
    def step(s, i, ev):
      text, last, out = s
      if i == 0:
        return (text + ev[1]["value"] if ev[0] == "d" and txt(ev[1]) else text, last, out), []
      if ev[0] == "p": return (text, last, ev[1]), put(0, out, ev[1])
      if not num(ev[1]): return s, []
      v = ev[1]["value"]
      if last <= 0.5 < v and text: return ("", v, out), [ (0, "d", freeze({ "timestamp": ev[1]["timestamp"], "value": text })) ]
      return (text, v, out), []
    return ("", 0, False), step
  if kind == "textformatter":
    def step(s, i, ev):
      if ev[0] == "p": return s[:i] + (f"d{i}",) + s[i+1:], []
      if not txt(ev[1]): return s, []
      s = s[:i] + (ev[1]["value"],) + s[i+1:]
      return s, [ (0, "d", freeze({ "timestamp": ev[1]["timestamp"], "value": "".join(f"[{x}]" for x in s) })) ]
    return tuple(f"d{i}" for i in range(n)), step
  if kind == "calculator":
    def step(s, i, ev):
      if ev[0] == "p": return s[:i] + (float(i + 1),) + s[i+1:], []
      if not num(ev[1]): return s, []
      s = s[:i] + (float(ev[1]["value"]),) + s[i+1:]
      v = sum(x * 10 ** k for k, x in enumerate(s)) if conf["formula"] == "sum" else max(s[0], s[1]) - min(s[0], s[1])
      return s, [ (0, "d", freeze({ "timestamp": ev[1]["timestamp"], "value": float(v) })) ]
    return tuple(float(i + 1) for i in range(n)), step
  def step(s, i, ev):
    if ev[0] == "p": return s[:i] + (ev[1],) + s[i+1:], put(i, s[i], ev[1])
    return s, [ (i, "d", freeze(dict(ev[1]))) ]
  return (False,) * n, step


def gate_open(conf, s):
  control, cpaused, cerr, ipaused = s
  return control and not ipaused and not (conf["fail_mode"] == "closed" and (cpaused or cerr))


def payload(kind, n, op, i, ts):
  v = op[4]
  if op[1] == "bad": return { "timestamp": ts, "value": { "no": v } } # has a time, but not the content
  if kind == "mediaswitch" and i % 2 == 0: return { "timestamp": ts, "packet": { "data": b"%d" % v, "pts": v, "rel_dts": 0, "is_keyframe": v % 3 == 0 } }
  text = { "gate": i == 0, "stringconcatenator": i == 0, "textformatter": True }.get(kind, False)
  if kind in SWITCHES and i % 2: value = (v % 10) * 10 + i # no two controls are equal
  elif text: value = f"t{v}"
  else: value = [0, 1, 0.5, 0.6][v % 4]
  return { "timestamp": ts, "value": value } if not (kind in ("gate", "switch") and i % 2 == 0) else { "timestamp": ts, "value": value, "n": v, "l": [v] }


async def main(sim, case):
  cfg = case["cfg"]
  kind, conf, n = cfg["kind"], cfg["conf"], cfg["n"]
  f = Flow(sim, cfg, n, n if kind == "synchronizer" else 1)
  await f.start(lambda c: build(kind, conf, n, c))
  state, step = model(kind, conf, n)
  prio = None if not conf["synchronized"] else { "gate": [0, 1], "stringconcatenator": [1, 0] }.get(kind, "plain")
  hand = Hand(n, prio, state, step)
  t0 = sim.now
  events, mark, paused = [ [] for _ in range(n) ], 0, [False] * n
  used = set()
  def compare():
    nonlocal mark, events
    outs = [ (j, k, v if k == "p" else freeze(v)) for _, j, k, v in f.out[mark:] ]
    if kind == "gate": shown, outs = [ o for o in outs if o[1] == "p" ], [ o for o in outs if o[1] == "d" ]
    mark = len(f.out)
    before = hand.states
    ok = hand.phase(events, outs)
    if ok is None: return False
    if not ok: raise Violation("wrong-output", f"{kind} {conf}: no order of the inputs {[ (i, e) for i, e in enumerate(events) if e ]} after {sorted(map(repr, before))[:2]} explains the outputs {outs}")
    if kind == "gate":
      last = next((v for _, _, k, v in reversed(f.out) if k == "p"), False)
      if last not in { not gate_open(conf, s[3]) for s in hand.states }: raise Violation("wrong-pause", f"gate {conf} in state {sorted(map(repr, (s[3] for s in hand.states)))}: the output is shown as {'paused' if last else 'not paused'}")
    events = [ [] for _ in range(n) ]
    return True
  known = True
  for op in case["ops"] + [[0.0, "settle"]]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      if not compare():
        sim.probe("too_many_orders")
        known = False
        break
      t0 = sim.now - op[0]
      continue
    i = op[2]
    if op[1] == "pause":
      if paused[i] != op[3]:
        paused[i] = op[3]
        events[i].append(("p", op[3]))
        await f.pause(i, op[3])
      continue
    d = JUNK[op[3]] if op[1] == "junk" else payload(kind, n, op, i, stamp_of(op, n, cfg["ties"]))
    if isinstance(d, dict): d = dict(d)
    used.add(i)
    events[i].append(("d", freeze(d)))
    await f.send(i, d)
  if known: f.check_witness()
  await f.stop()
  nout = sum(1 for o in f.out if o[2] == "d")
  sim.probe("outputs", nout)
  return { "nontrivial": nout >= 5 and len(used) > 1 and known }


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
