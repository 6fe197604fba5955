"""S06: what users set in a control is what it publishes, what arrives at a display is what its users see."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, gen_net
from dst.sim import Violation
from dst.tasklab import boot_client, start_net
from dst.weblab import Ws, http, parse_json

ID = "S06"
RULE = ("seeded case = loop-free network with the real discovery worker, one control (switch, slider, radio buttons, text input) or display (status, text, bar) task, 1-3 users with concurrent requests and websockets over the network that set valid and invalid values, read, watch and leave, valid and invalid messages in bursts, delayed links, stalled scheduler, end of the task; "
        "non-trivial when at least three values were taken over and one was seen by websocket or read back; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.ui (controlbase, switchui, sliderui, radiobuttonsui, textinput, statusdisplay, textdisplay, valuedisplaybar)", "streamtasks.asgi", "streamtasks.asgiserver", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "task host (the task object is run directly)", "the browser (an ASGI caller)"]
COUNT = { "quick": 8000, "thorough": 600000 }
SLACK = 0.8
CONTROLS = ["switch", "slider", "radio", "text"]
DISPLAYS = ["status", "textdisplay", "bar", "freq"]
BAD = [ {}, { "value": None }, { "value": { "a": 1 } }, [], { "selected_topic": "x" }, "nonsense" ]
JUNK = [ "text", { "value": 1 }, { "timestamp": 3 }, { "timestamp": 1, "value": [] }, { "timestamp": 1, "data": b"abc" } ]


def gen(rng, tier="quick"):
  kind = rng.choice(CONTROLS + DISPLAYS)
  conf = { "repeat_interval": rng.choice([0, 0, 0.2, 1.0]) }
  n_out = 0
  if kind in CONTROLS: n_out = 1
  if kind == "radio": n_out = rng.randint(1, 3)
  if kind in ("switch", ): conf["default_value"] = rng.random() < 0.5
  if kind == "slider": conf["default_value"] = rng.choice([0, 0.25])
  if kind == "textdisplay": conf |= { "append": rng.random() < 0.5, "seperator": rng.choice(["", "|"]), "max_length": rng.choice([-1, 5, 2000]) }
  if kind == "radio": conf["n"] = n_out
  if kind == "freq": conf |= { "rate": rng.choice([32, 50]), "bin_size": rng.choice([1, 4, 5, 7, 40]), "sample_format": rng.choice(["s16", "flt"]) }
  users = [ { "sw": 0, "kind": rng.choice(["queue", "delay"]) } for _ in range(rng.randint(1, 3)) ]
  net = gen_net(rng, 0 if kind in CONTROLS else 1)
  for u in users: u["sw"] = rng.randrange(net["switches"])
  ops, t, n = [], 0.0, 0
  for _ in range(rng.randint(8, 40)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.003, 0.02, 0.2, 1.5])
    u, r = rng.randrange(len(users)), rng.random()
    n += 1
    if r < 0.1: ops.append([round(t, 4), "open", u])
    elif r < 0.15: ops.append([round(t, 4), "leave", u])
    elif r < 0.3: ops.append([round(t, 4), "get", u])
    elif r < 0.35: ops.append([round(t, 4), "settle"])
    elif kind in CONTROLS and r < 0.42: ops.append([round(t, 4), "bad", u, rng.randrange(len(BAD))])
    elif kind in CONTROLS: ops.append([round(t, 4), "set", u, n, rng.randrange(100)])
    else: ops.append([round(t, 4), "junk" if rng.random() < 0.15 else "data", n])
  return { "seed": rng.getrandbits(48), "cfg": { **net, "kind": kind, "conf": conf, "n_out": n_out, "users": users, "disc": { "sw": rng.randrange(net["switches"]), "kind": "queue", "at": 0 } }, "ops": ops }


def build(kind, conf, c):
  r = { "repeat_interval": conf["repeat_interval"] }
  if kind == "switch":
    from streamtasks.system.tasks.ui.switchui import SwitchUIConfig, SwitchUITask
    return SwitchUITask(c, SwitchUIConfig(out_topic=OUT0, default_value=conf["default_value"], **r))
  if kind == "slider":
    from streamtasks.system.tasks.ui.sliderui import SliderUIConfig, SliderUITask
    return SliderUITask(c, SliderUIConfig(out_topic=OUT0, default_value=conf["default_value"], **r))
  if kind == "radio":
    from streamtasks.system.tasks.ui.radiobuttonsui import RadioButtonConfig, RadioButtonsUIConfig, RadioButtonsUITask
    return RadioButtonsUITask(c, RadioButtonsUIConfig(button_tracks=[ RadioButtonConfig(out_topic=OUT0 + i, label=f"b{i}") for i in range(conf["n"]) ], **r))
  if kind == "text":
    from streamtasks.system.tasks.ui.textinput import TextInputConfig, TextInputTask
    return TextInputTask(c, TextInputConfig(out_topic=OUT0, **r))
  if kind == "status":
    from streamtasks.system.tasks.ui.statusdisplay import StatusDisplayConfig, StatusDisplayTask
    return StatusDisplayTask(c, StatusDisplayConfig(in_topic=IN0))
  if kind == "textdisplay":
    from streamtasks.system.tasks.ui.textdisplay import TextDisplayConfig, TextDisplayTask
    return TextDisplayTask(c, TextDisplayConfig(in_topic=IN0, **conf))
  if kind == "freq":
    from streamtasks.system.tasks.ui.audiofrequencydisplay import AudioFrequencyDisplayConfig, AudioFrequencyDisplayTask
    return AudioFrequencyDisplayTask(c, AudioFrequencyDisplayConfig(in_topic=IN0, rate=conf["rate"], bin_size=conf["bin_size"], sample_format=conf["sample_format"]))
  from streamtasks.system.tasks.ui.valuedisplaybar import ValueDisplayBarConfig, ValueDisplayBarTask
  return ValueDisplayBarTask(c, ValueDisplayBarConfig(in_topic=IN0, default_value=0.125))


def default(kind, conf):
  return { "switch": { "value": conf.get("default_value") }, "slider": { "value": float(conf.get("default_value") or 0) }, "radio": { "selected_topic": -1 }, "text": { "value": "" },
           "status": { "value": 0.5 }, "textdisplay": { "value": "" }, "bar": { "value": 0.125 }, "freq": { "freq_bins": [] } }[kind]


def tone(conf, n):
  """one second of a sine wave (or silence), without its first sample and with that of the next second, which are 0 -> (data, what the frequency display is to show)"""
  import numpy as np
  rate, hz = conf["rate"], n % 9 * 3 % (conf["rate"] // 2)
  samples = np.zeros(rate) if n % 9 == 4 else np.sin(2 * np.pi * hz * np.arange(rate) / rate) * 0.5
  samples = (samples * 2**14).astype("i2") if conf["sample_format"] == "s16" else samples.astype("f4")
  lines = np.abs(np.fft.fft(samples.astype("f8")))[: rate // 2]
  bins = [ float(lines[k : k + conf["bin_size"]].sum()) for k in range(0, rate // 2, conf["bin_size"]) ]
  return np.append(samples[1:], samples[:1]).tobytes(), { "freq_bins": [ round(b / (max(bins) or 1), 4) for b in bins ] }


def canon(v):
  return { "freq_bins": [ round(x, 4) + 0.0 if x is not None else None for x in v["freq_bins"] ] } if isinstance(v, dict) and "freq_bins" in v else v


def setting(kind, conf, n, k):
  if kind == "switch": return { "value": k % 2 == 0 }
  if kind == "slider": return { "value": n + 0.5 }
  if kind == "radio": return { "selected_topic": OUT0 + k % (conf["n"] + 1) }
  return { "value": "  " if k < 15 else f"text {n}" }


async def main(sim, case):
  from streamtasks.asgi import ASGIProxyApp
  cfg, kind, conf = case["cfg"], case["cfg"]["kind"], case["cfg"]["conf"]
  control = kind in CONTROLS
  switches, d_task, _ = await start_net(sim, cfg)
  f = Flow(sim, cfg, 0 if control else 1, cfg["n_out"])
  await f.start(lambda c: build(kind, conf, c), switches)
  began = sim.now - 1.5
  users = []
  for i, u in enumerate(cfg["users"]):
    c = await boot_client(sim, switches, u, f"user{i}")
    users.append(ASGIProxyApp(c, f.task_client.address))
  await asyncio.sleep(0.3)
  t0 = sim.now
  writes = [ (-1e9, -1e9, default(kind, conf)) ]   # (begun, answered or None, value)
  values = [ (t0, default(kind, conf)) ]           # displays: (sent, value shown from then on)
  socks, pending, reads = [], [], []
  seen = 0

  def possible(value, a, b):
    """may a look between a and b have found this value?"""
    if not control:
      lo = max([ i for i, (t, _) in enumerate(values) if t < a - SLACK ], default=0)
      return any(v == value for i, (t, v) in enumerate(values) if i >= lo and t <= b)
    return any(v == value and s <= b and not any(s2 > (e if e is not None else 1e18) and e2 is not None and e2 < a for s2, e2, _ in writes) for s, e, v in writes)

  async def get(u):
    a = sim.now
    status, v = await http(users[u], "GET", "/value")
    v = canon(v)
    if status != 200: raise Violation("refused", f"reading the value was answered with {status}")
    if not possible(v, a, sim.now): raise Violation("wrong-value", f"{kind}: value {v} was read between {a:.3f} and {sim.now:.3f}")
    reads.append(v)
    return v

  async def set_value(u, v):
    w = [sim.now, None, v]
    writes.append(w)
    status, _ = await http(users[u], "POST", "/value", v)
    if status != 200: raise Violation("refused", f"setting {v} was answered with {status}")
    w[1] = sim.now

  async def bad(u, v):
    status, _ = await http(users[u], "POST", "/value", v)
    if status != 400: raise Violation("accepted", f"setting {v!r} was answered with {status}")

  class Sock:
    def __init__(self, u):
      self.ws = Ws(users[u], "/value")
      self.u, self.at, self.open_at, self.left, self.got = u, sim.now, None, None, []
    def poll(self): # note when things arrived
      if self.open_at is None and self.ws.accepted: self.open_at = sim.now
  def watch(s):
    async def run():
      k = 0
      while True:
        s.poll()
        while k < len(s.ws.sent):
          v = canon(parse_json(s.ws.sent[k]))
          k += 1
          if not possible(v, sim.now - SLACK, sim.now): raise Violation("wrong-value", f"{kind}: value {v} was shown at {sim.now:.3f}")
          s.got.append((sim.now, v))
        await asyncio.sleep(0.01)
    return asyncio.create_task(run())

  def check_published(now):
    if not control: return
    for t, o, k, v in f.out:
      if k == "p": raise Violation("pause", "a control's output was shown as paused")
      want_keys = isinstance(v, dict) and set(v) == { "timestamp", "value" }
      if not want_keys or abs(v["timestamp"] - (t + sim.wall() - sim.now) * 1000) > SLACK * 1000: raise Violation("wrong-output", f"{v} was published at {t:.3f}")
      if not any(meaning(w[2], o) == v["value"] and possible(w[2], t - SLACK, t) for w in writes): raise Violation("wrong-output", f"{kind}: {v} was published at {t:.3f}, which nobody had set")

  def meaning(w, o):
    if kind == "radio": return 1.0 if w["selected_topic"] == OUT0 + o else 0.0
    if kind == "text": return w["value"] if w["value"].strip() else None
    return float(w["value"])

  async def check(quiet):
    for t in pending: t.done() and t.result()
    for s in socks: s.task.done() and s.task.result()
    check_published(sim.now)
    if any(w[1] is None for w in writes) : raise Violation("no-answer", "a value that was set is not acknowledged")
    a = sim.now
    v = await get(0)
    ri = conf["repeat_interval"]
    if control:
      last_end = max(w[1] for w in writes)
      for o in range(cfg["n_out"]):
        outs = [ (t, x["value"]) for t, oo, k, x in f.out if oo == o ]
        want = meaning(v, o)
        if want is None: continue
        if len(writes) > 1 and (not outs or outs[-1][1] != want): raise Violation("not-published", f"{kind}: the value is {v}, output {o} last published {outs[-1:]}")
        if ri and a > began + 3 * SLACK + ri:
          ts = [ t for t, _ in outs if t > a - 3 * SLACK - 2 * ri ]
          if not ts or a - ts[-1] > ri + SLACK: raise Violation("not-repeated", f"{kind}: output {o} has not been published since {ts[-1:]}, it is to be every {ri} s")
    for s in socks:
      if s.left is not None or s.open_at is None: continue
      after = any(x[0] > s.open_at + 0.02 for x in (writes[1:] if control else values[1:]))
      if s.ws.closed: raise Violation("closed", "a websocket was closed while the task runs")
      if after and (not s.got or s.got[-1][1] != v): raise Violation("not-shown", f"{kind}: the value is {v}, a websocket open since {s.open_at:.3f} was last told {s.got[-1:]}")

  n_junk = 0
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      await check(True)
      t0 = sim.now - op[0]
    elif op[1] == "open":
      s = Sock(op[2])
      s.task = watch(s)
      socks.append(s)
    elif op[1] == "leave":
      s = next((s for s in socks if s.u == op[2] and s.left is None), None)
      if s:
        s.left = sim.now
        s.ws.disconnect()
    elif op[1] == "get": pending.append(asyncio.create_task(get(op[2])))
    elif op[1] == "set": pending.append(asyncio.create_task(set_value(op[2], setting(kind, conf, op[3], op[4]))))
    elif op[1] == "bad": pending.append(asyncio.create_task(bad(op[2], BAD[op[3]])))
    elif op[1] == "junk":
      await f.send(0, JUNK[op[2] % len(JUNK)])
    else:
      n = op[2]
      x = f"t{n}" if kind == "textdisplay" else float("inf") if n % 7 == 3 else n + 0.5
      v = { "value": x if x != float("inf") else None } # there is no such number in JSON
      if kind == "textdisplay" and conf["append"]: v = { "value": values[-1][1]["value"] + conf["seperator"] + x }
      if kind == "textdisplay" and conf["max_length"] != -1: v = { "value": v["value"][-conf["max_length"]:] }
      if kind == "freq":
        x, v = tone(conf, n)
        if len(values) == 1: x = bytes(2 if conf["sample_format"] == "s16" else 4) + x
      values.append((sim.now, v))
      await f.send(0, { "timestamp": n, "data" if kind == "freq" else "value": x })
  await f.settle()
  await check(True)
  for s in socks:
    if s.left is not None and s.ws.task.done() is False: raise Violation("websocket-left", f"a websocket left at {s.left:.3f} has not ended")
  f.check_witness()
  for s in socks:
    s.task.cancel()
    if s.ws.task.done() and not s.ws.task.cancelled() and s.ws.task.exception() is not None: raise s.ws.task.exception()
  k = len(f.out)
  await f.stop()
  await asyncio.sleep(0.6)
  k = len(f.out)
  await asyncio.sleep(3.0)
  if len(f.out) != k: raise Violation("after-end", f"the task has ended, but {f.out[-1]} came out later")
  for s in socks:
    if s.left is None and s.open_at is not None and not s.ws.closed and not s.ws.task.done(): raise Violation("websocket-left", "the task has ended, a websocket to it is still open")
  shown = sum(len(s.got) for s in socks) + len(reads)
  taken = len(writes if control else values) - 1
  return { "nontrivial": taken >= 3 and shown > 0 }


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05, "max_steps": 600000 })
