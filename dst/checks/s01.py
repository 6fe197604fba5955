"""S01: a transforming task answers every message of its input once, in order, whatever else arrives."""
from __future__ import annotations

import asyncio
import re
import time
from datetime import datetime

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, gen_net
from dst.sim import Violation

ID = "S01"
RULE = ("seeded case = loop-free network, one of the tasks timestamp updater, number to text, time to text, string matcher, text formatter, calculator (one input), 10-60 valid, invalid and extreme messages in bursts, pauses, delayed links, stalled scheduler; "
        "non-trivial when at least 5 messages were answered and an invalid one was among the input; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks (timestampupdater, numbertotext, timetotext, stringmatcher, textformatter, calculator)", "streamtasks.message", "streamtasks.client.topic", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }

TASKS = ["calculator", "calculator", "timestampupdater", "numbertotext", "timetotext", "stringmatcher", "textformatter", "calculator"]
TEXTS = ["", "yes", "Yes it is", "no", "a\nyes", "yEs\nb", "x(y)", "ümläut", "yes" * 400]
NUMBERS = [0, 1, 0.5, 0.51, -2.25, 7, 1e300, 3.0]
JUNK = [ "text", [1, 2], 5, {}, { "value": 1.0 }, { "timestamp": None, "value": 1.0 }, { "timestamp": "soon", "value": "x" }, { "timestamp": 5, "value": { "a": 1 } }, { "timestamp": [1], "value": 2.0 },
         { "timestamp": float("inf"), "value": 1.0 }, { "timestamp": 10**18, "value": 3 }, { "timestamp": 1e17, "value": "x" }, { "timestamp": float("nan"), "value": "yes" } ]
FUNCTIONS = { "sin": 1, "cos": 1, "tan": 1, "asin": 1, "acos": 1, "atan": 1, "atan2": 2, "sinh": 1, "cosh": 1, "tanh": 1, "asinh": 1, "acosh": 1, "atanh": 1, "log": 1, "log2": 1, "log10": 1, "exp": 1, "sqrt": 1, "floor": 1, "ceil": 1, "round": 1, "abs": 1, "min": 2, "max": 3 }
OPERATORS = { ">": 1, "<": 1, ">=": 1, "<=": 1, "==": 1, "!=": 1, "&": 2, "|": 2, "^": 2, "+": 3, "-": 3, "*": 4, "/": 4, "%": 4, "**": 5 } # how strongly they bind


def gen_formula(rng, depth=3, whole=True):
  r = rng.random()
  if depth == 0 or r < 0.1: return rng.choice([["a"], ["a"], ["a"], ["pi"], ["e"], ["n", rng.choice([0, 1, 2, 3, 10, 0.5, 0.25, 1e3])]])
  def sub(whole=whole): return gen_formula(rng, rng.randrange(depth), whole)
  if r < 0.65:
    op = rng.choice(sorted(OPERATORS))
    return [op, sub(whole and op != "**"), sub(whole and op != "**")]
  if r < 0.75: return ["u" + rng.choice("-+!"), sub()]
  if r < 0.85: return ["?", sub(), sub(), sub()]
  name = rng.choice(sorted(f for f in FUNCTIONS if whole or f not in ("floor", "ceil", "round"))) # their powers would take forever
  return ["f", name, [ sub() for _ in range(FUNCTIONS[name]) ]]


def render(x, level=0):
  k = x[0]
  if k == "n": text, own = repr(x[1]), 6
  elif k in ("a", "pi", "e"): text, own = k, 6
  elif k == "f": text, own = f"{x[1]}({', '.join(render(y) for y in x[2])})", 6
  elif k == "?": text, own = f"{render(x[1], 1)} ? {render(x[2])} : {render(x[3])}", 0
  elif k[0] == "u": text, own = k[1] + render(x[1], 6), 6
  else:
    own = OPERATORS[k]
    text = f"{render(x[1], { 1: 2, 5: 6 }.get(own, own))} {k} {render(x[2], own + 1)}"
  return text if own >= level else f"({text})"


class Unreal(Exception):
  """Powers of negative numbers: which operators take them is nothing the property speaks of."""


def gen_real_formula(rng):
  while True:
    x = gen_formula(rng)
    try:
      for a in { float(v) for v in [ *NUMBERS, *(d.get("value") for d in JUNK if isinstance(d, dict)) ] if isinstance(v, (int, float)) }:
        try: evaluate(x, a)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError): pass
      return x
    except Unreal: pass


def evaluate(x, a):
  import math
  k = x[0]
  if k == "n": return float(x[1])
  if k == "a": return a
  if k in ("pi", "e"): return getattr(math, k)
  if k == "f":
    args = [ evaluate(y, a) for y in x[2] ]
    return { "abs": abs, "min": min, "max": max, "round": round }.get(x[1], getattr(math, x[1], None))(*args)
  v = [ evaluate(y, a) for y in x[1:] ] # all of it has to have a value
  if k == "?": return v[1] if v[0] > 0.5 else v[2]
  if k == "u-": return -v[0]
  if k == "u+": return v[0]
  if k == "u!": return 0.0 if v[0] > 0.5 else 1.0
  l, r = v
  if k in "&|^":
    l, r = l > 0.5, r > 0.5
    return float(l and r if k == "&" else l or r if k == "|" else l != r)
  if k == "+": return l + r
  if k == "-": return l - r
  if k == "*": return l * r
  if k == "/": return l / r
  if k == "%": return l % r
  if k == "**":
    v = l ** r
    if isinstance(v, complex): raise Unreal()
    return v
  return float({ ">": l > r, "<": l < r, ">=": l >= r, "<=": l <= r, "==": l == r, "!=": l != r }[k])


def gen(rng, tier="quick"):
  task = rng.choice(TASKS)
  if task == "timestampupdater": conf = { "time_reference": rng.choice(["message", "clock"]), "time_offset": rng.choice([0, 5, -1000, 10**6]), "fail_closed": rng.random() < 0.5 }
  elif task == "timetotext": conf = rng.choice([{}, { "date_format": "%H:%M:%S" }, { "date_format": "%Y" }])
  elif task == "stringmatcher": conf = rng.choice([{ "pattern": "yes" }, { "pattern": "yes", "flags": "" }, { "pattern": "x(y)" }, { "pattern": "^y.s$", "is_regex": True }, { "pattern": "yes", "flags": "is" }, { "pattern": "" }])
  elif task == "textformatter": conf = { "template": rng.choice(["<{v}>", "{v}{v}", "const", "{{}} {v}"]), "default": rng.choice(["", "d"]), "synchronized": rng.random() < 0.5 }
  elif task == "calculator": conf = { "formula": gen_real_formula(rng), "default": rng.choice([0.0, 1.0]), "synchronized": rng.random() < 0.5 }
  else: conf = {}
  ops, t, ts, paused = [], 0.0, 1000, False
  for _ in range(rng.randint(10, 60)):
    t += rng.choice([0.0, 0.0, 0.0, 0.0005, 0.01, 0.2])
    r = rng.random()
    if r < 0.1:
      paused = not paused
      ops.append([round(t, 4), "pause", paused])
    elif r < 0.3: ops.append([round(t, 4), "junk", rng.randrange(len(JUNK))])
    elif r < 0.36: ops.append([round(t, 4), "settle"])
    else:
      ts += rng.choice([0, 1, 1, 40, 10**7])
      ops.append([round(t, 4), "data", ts, rng.randrange(1000)])
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, 1), "kind": task, "conf": conf }, "ops": ops }


def build(kind, conf, client):
  import importlib
  m = importlib.import_module(f"streamtasks.system.tasks.{kind}")
  base = { "in_topic": IN0, "out_topic": OUT0 }
  if kind == "timestampupdater": return m.TimestampUpdaterTask(client, m.TimestampUpdaterConfig.model_validate({ **base, **conf }))
  if kind == "numbertotext": return m.NumberToTextTask(client, m.NumberToTextConfig.model_validate(base))
  if kind == "timetotext": return m.TimeToTextTask(client, m.TimeToTextConfig.model_validate({ **base, **conf }))
  if kind == "stringmatcher": return m.StringMatcherTask(client, m.StringMatcherConfig.model_validate({ **base, **conf }))
  if kind == "textformatter": return m.TextFormatterTask(client, m.TextFormatterConfig.model_validate({ "out_topic": OUT0, "template": conf["template"], "synchronized": conf["synchronized"], "variable_tracks": [ { "name": "v", "default_text": conf["default"], "in_topic": IN0 } ] }))
  return m.CalculatorTask(client, m.CalculatorConfig.model_validate({ "out_topic": OUT0, "formula": render(conf["formula"]), "synchronized": conf["synchronized"], "variable_tracks": [ { "name": "a", "default_value": conf["default"], "in_topic": IN0 } ] }))


def whole(t): return isinstance(t, int) or isinstance(t, float) and t.is_integer()
def number(d): return isinstance(d, dict) and whole(d.get("timestamp")) and isinstance(d.get("value"), (int, float))
def text(d): return isinstance(d, dict) and whole(d.get("timestamp")) and isinstance(d.get("value"), str)
def stamp(d):
  t = d.get("timestamp") if isinstance(d, dict) else None
  if isinstance(t, float) and (t != t or t in (float("inf"), float("-inf"))): return None
  return int(t) if isinstance(t, (int, float)) else None


def answer(kind, conf, d, lo, hi):
  """(must be there, test) for one input message, or None when nothing may come of it."""
  def exact(v): return lambda o: o == v and type(o["value"]) is type(v["value"]) if isinstance(v, dict) and "value" in v else o == v
  if kind == "timestampupdater":
    if conf["time_reference"] == "message":
      t = stamp(d)
      if t is None: return None if conf["fail_closed"] else same(d)
      return lambda o: same({ **d, "timestamp": t + conf["time_offset"] })(o)
    if not (isinstance(d, dict) and "timestamp" in d): return None if conf["fail_closed"] else same(d)
    return lambda o: isinstance(o, dict) and type(o.get("timestamp")) is int and lo <= o["timestamp"] - conf["time_offset"] <= hi and same({ k: v for k, v in d.items() if k != "timestamp" })({ k: v for k, v in o.items() if k != "timestamp" })
  if kind == "numbertotext": return exact({ "timestamp": d["timestamp"], "value": str(float(d["value"])) }) if number(d) else None
  if kind == "timetotext":
    t = stamp(d)
    if t is None: return None
    try: return exact({ "timestamp": t, "value": datetime.fromtimestamp(t / 1000).strftime(conf.get("date_format", "%d/%m/%Y, %H:%M:%S")) })
    except (ValueError, OverflowError, OSError): return None
  if kind == "stringmatcher":
    if not text(d): return None
    v, p, fl = d["value"], conf["pattern"], conf.get("flags", "i")
    f = (re.I if "i" in fl else 0) | (re.S if "s" in fl else 0)
    if conf.get("is_regex"): hit = re.match(p, v, f) is not None
    elif "s" in fl: hit = p.lower() in v.lower() if "i" in fl else p in v
    else: # without DOTALL the pattern has to be in the first line, and that the only one
      one = v[:-1] if v.endswith("\n") else v
      hit = "\n" not in one and (p.lower() in one.lower() if "i" in fl else p in one)
    return exact({ "timestamp": d["timestamp"], "value": 1.0 if hit else 0.0 })
  if kind == "textformatter": return exact({ "timestamp": d["timestamp"], "value": conf["template"].replace("{v}", d["value"]).replace("{{}}", "{}") if conf["template"] != "const" else "const" }) if text(d) else None
  if not number(d): return None
  try: v = float(evaluate(conf["formula"], float(d["value"])))
  except (ZeroDivisionError, ValueError, OverflowError, TypeError, KeyError): return None # no value, no message
  return lambda o: set(o) == { "timestamp", "value" } and o["timestamp"] == d["timestamp"] and (o["value"] == v or v != v and o["value"] != o["value"])


def same(d):
  return lambda o: repr(o) == repr(d)


async def main(sim, case):
  cfg, kind, conf = case["cfg"], case["cfg"]["kind"], case["cfg"]["conf"]
  f = Flow(sim, cfg, 1, 1)
  await f.start(lambda c: build(kind, conf, c))
  t0 = sim.now
  expect, ninvalid = [], 0 # ("p", bool) or ("d", test, payload)
  announced = False
  synced = conf.get("synchronized", False)
  last = 0
  checked = 0
  def compare(final):
    nonlocal checked
    got = [ (k, v) for _, _, k, v in f.out ]
    for i in range(max(len(got), len(expect))):
      if i >= len(expect): raise Violation("extra", f"{kind} {conf}: output {got[i]} is the answer to no input")
      if i >= len(got): raise Violation("missing", f"{kind} {conf}: nothing came of input {expect[i][-1]!r}")
      e, g = expect[i], got[i]
      if e[0] != g[0] or (e[0] == "p" and e[1] != g[1]) or (e[0] == "d" and not e[1](g[1])): raise Violation("wrong-output", f"{kind} {conf}{' ' + render(conf["formula"]) if "formula" in conf else ""}: input {e[-1]!r} was answered with {g}")
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      compare(False)
      t0 = sim.now - op[0]
    elif op[1] == "pause":
      await f.pause(0, op[2])
      if kind not in ("textformatter", "calculator") and op[2] != announced:
        announced = op[2]
        expect.append(("p", op[2], op[2]))
      if op[2]: last = 0
    else:
      if op[1] == "junk":
        d = JUNK[op[2]]
        if isinstance(d, dict): d = dict(d)
        ninvalid += 1
      else:
        v = [ TEXTS[op[3] % len(TEXTS)], NUMBERS[op[3] % len(NUMBERS)] ][(op[3] // 10) % 2 if kind in ("timestampupdater", "timetotext") else kind in ("numbertotext", "calculator")]
        d = { "timestamp": op[2], "value": v, "more": [1, { "x": b"y" }] }
      t = stamp(d)
      if synced: # the past is dropped
        if t is None or t < last: a = None
        else:
          a = answer(kind, conf, d, 0, 0)
          last = t
      else: a = answer(kind, conf, d, int(time.time() * 1000), int(time.time() * 1000) + 2000)
      await f.send(0, d)
      if a is not None: expect.append(("d", a, d))
  await f.settle()
  compare(True)
  if repr(f.seen[0]) != repr(f.sent[0]): raise Violation("input-changed", f"another consumer of the input was to get {f.sent[0][:20]}, it got {f.seen[0][:20]}")
  await f.stop()
  sim.probe("answers", len(f.out))
  return { "nontrivial": sum(e[0] == "d" for e in expect) >= 5 and ninvalid > 0 }


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
