"""F01: a function task calls its function once for every message, in order, with the newest value of each input."""
from __future__ import annotations

import asyncio
import inspect
from dataclasses import dataclass

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, Hand, freeze, gen_net
from dst.sim import SimThread, Violation, thread_yield

ID = "F01"
RULE = ("seeded case = loop-free network, one function task host with two tasks (plain, async or threaded function; 1-3 inputs and 0-3 outputs of all types; with or without timestamp, config and state; synchronised or not), 15-60 valid and invalid messages from different places, pauses, calls that take time, "
        "results that do not fit, a call that fails, delayed links, stalled scheduler, stop during a call; calls and published messages are compared with a reference model after each phase; non-trivial when at least 5 calls were made; distinct by execution fingerprint")
REAL = ["streamtasks.system.fntask", "streamtasks.system.task (creating tasks)", "streamtasks.client.topic", "streamtasks.message", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "executor threads (run under the simulator's baton)", "sockets (simulated byte streams)", "the task's function (scripted)"]
COUNT = { "quick": 12000, "thorough": 800000 }
TYPES = { "int": int, "float": float, "str": str, "bytes": bytes }
JUNK = [ "text", [1], { "value": 1.0 }, { "timestamp": None }, { "timestamp": "x", "value": 0 } ]


class FnError(Exception): pass


@dataclass
class FnConfig:
  step: int = 7
  name: str = "unset"


class FnState:
  def __init__(self): self.count = 0


def gen(rng, tier="quick"):
  n = rng.choice([1, 2, 2, 3])
  cfg = { **gen_net(rng, 2 * n), "n": n, "kind": rng.choice(["plain", "async", "async", "thread"]), "types": [ rng.choice(list(TYPES)) for _ in range(n) ],
          "outs": rng.choice([[], *[ [ rng.choice(list(TYPES)) for _ in range(k) ] for k in (1, 1, 2, 3) ]]), "tuple1": rng.random() < 0.3,
          "timestamp": rng.random() < 0.5, "config": rng.random() < 0.5, "state": rng.random() < 0.5, "synced": [ rng.random() < 0.7 for _ in range(2) ],
          "step": [ rng.choice([None, 1, 20]) for _ in range(2) ], "takes": [ rng.choice([0.0, 0.0, 0.001, 0.01, 0.03]) for _ in range(5) ],
          "misfit": rng.choice([None, None, 2, 5]), "fail": rng.choice([None, None, None, 1, 2, 4, 9]), "how": rng.choice(["raise", "raise", "count"]), "stop_busy": rng.random() < 0.2 }
  ops, t, clock = [], 0.0, 1000
  last, paused = [0] * 2 * n, [False] * 2 * n
  for _ in range(rng.randint(2, 8)):
    alone = rng.random() < 0.3
    who = [ rng.randrange(2 * n) ] if alone else rng.sample(range(2 * n), rng.randint(1, 2 * n))
    for _ in range(rng.randint(1, 10)):
      t += rng.choice([0.0, 0.0, 0.0005, 0.003, 0.02])
      i = rng.choice(who)
      r = rng.random()
      if r < (0.2 if alone else 0.04):
        paused[i] = not paused[i]
        ops.append([round(t, 4), "pause", i, paused[i]])
      elif r < 0.28: ops.append([round(t, 4), "junk", i, rng.randrange(len(JUNK))])
      else:
        if paused[i] and rng.random() < 0.8: continue
        clock += rng.choice([0, 1, 1, 5])
        last[i] = ts = max(clock, last[i]) if rng.random() < 0.9 else max(0, last[i] - rng.choice([1, 20]))
        ops.append([round(t, 4), "bad" if rng.random() < 0.1 else "data", i, ts, rng.randrange(100)])
    ops.append([round(t, 4), "settle"])
  if cfg["stop_busy"]: ops.pop()
  return { "seed": rng.getrandbits(48), "cfg": cfg, "ops": ops }


def value(kind, v): return { "int": v, "float": v + 0.5, "str": f"t{v}", "bytes": b"b%d" % v }[kind]
def payload(kind, ts, v, ok=True): return { "timestamp": ts, ("data" if kind == "bytes" else "value"): value(kind, v) if ok else { "no": v } }
def content(kind, d):
  if not isinstance(d, dict) or not isinstance(d.get("timestamp"), int): return None
  v = d.get("data" if kind == "bytes" else "value")
  return v if isinstance(v, { "int": (int, float), "float": (int, float), "str": str, "bytes": bytes }[kind]) else None


class Function:
  """What the tasks call: records the calls of each task, told apart by their outputs' offset in the calls."""
  def __init__(self, sim, cfg):
    self.sim, self.cfg = sim, cfg
    self.calls = [ [], [] ]       # (timestamp or None, values, config, count of the state)
    self.inside = [ 0, 0 ]
    self.states = [ None, None ]
    self.failed = None
    self.over = [ False, False ]
    self.results = [ [], [] ]     # what each call returned, in order
    self.broken = []

  def whose(self, params): # every value of the second task is 1000 and more
    v = params["in0"]
    v = int(v.strip(b"b") if isinstance(v, bytes) else v.strip("t") if isinstance(v, str) else v)
    return int(v >= 1000)

  def enter(self, params):
    try: return self._enter(params)
    except Violation as e:
      self.broken.append(e)
      raise

  def _enter(self, params):
    cfg = self.cfg
    who = self.whose(params)
    if self.over[who]: raise Violation("called-after-end", f"task {who} has ended, its function was called with {params}")
    if self.failed is not None and who == 0: raise Violation("called-after-failure", f"call {self.failed} of the task has failed, its function was called again with {params}")
    self.inside[who] += 1
    if self.inside[who] > 1: raise Violation("calls-overlap", f"the function was called with {params} while another call of the same task was running")
    want = { *[ f"in{i}" for i in range(cfg["n"]) ], *[ k for k in ("timestamp", "config", "state") if cfg[k] ] }
    if set(params) != want: raise Violation("wrong-arguments", f"the function takes {sorted(want)}, it was called with {sorted(params)}")
    count = None
    if cfg["state"]:
      st = params["state"]
      if not isinstance(st, FnState): raise Violation("wrong-state", f"the state is {st!r}")
      if self.states[who] is None: self.states[who] = st
      if self.states[who] is not st or self.states[1 - who] is st: raise Violation("wrong-state", f"the state of task {who} is not its own")
      st.count += 1
      count = st.count
    conf = None
    if cfg["config"]:
      c = params["config"]
      if not isinstance(c, FnConfig): raise Violation("wrong-config", f"the config is {c!r}")
      conf = (c.step, c.name)
    values = tuple(params[f"in{i}"] for i in range(cfg["n"]))
    self.calls[who].append((params.get("timestamp"), values, conf, count))
    return who, len(self.calls[who]), cfg["takes"][len(self.calls[who]) % len(cfg["takes"])]

  def in_thread(self, expected=True):
    if (getattr(SimThread.local, "me", None) is not None) != expected:
      self.broken.append(Violation("wrong-thread", f"a function that is {'' if expected else 'not '}thread safe was called in {'the event loop' if expected else 'a thread'}"))
      raise self.broken[-1]

  def leave(self, who, k, params):
    cfg = self.cfg
    self.inside[who] -= 1
    outs = cfg["outs"]
    if who == 0 and k == cfg["fail"]:
      if cfg["how"] == "raise" :
        self.failed = k
        raise FnError(f"call {k} fails")
      if outs:
        self.failed = k
        return tuple([ value(o, k) for o in outs ] + [ 0 ]) # one result too many
    res = [ value(o, k * 10 + j) for j, o in enumerate(outs) ]
    if cfg["misfit"] and outs and k % cfg["misfit"] == 0: res[k % len(outs)] = { "not": "a value" }
    self.results[who].append(res)
    if not outs: return ()
    return tuple(res) if len(outs) > 1 or cfg["tuple1"] else res[0]

  def build(self):
    from streamtasks.system.fntask import fntask
    me, cfg = self, self.cfg
    if cfg["kind"] == "async":
      async def function(**params):
        who, k, d = me.enter(params)
        try:
          if d: await asyncio.sleep(d)
        except asyncio.CancelledError:
          me.inside[who] -= 1
          raise
        return me.leave(who, k, params)
    elif cfg["kind"] == "thread":
      def function(**params):
        me.in_thread()
        who, k, d = me.enter(params)
        if d: thread_yield(d)
        return me.leave(who, k, params)
    else:
      def function(**params):
        me.in_thread(False)
        who, k, _ = me.enter(params)
        return me.leave(who, k, params)
    p = [ inspect.Parameter(f"in{i}", inspect.Parameter.POSITIONAL_OR_KEYWORD, annotation=TYPES[t]) for i, t in enumerate(cfg["types"]) ]
    for name, an in (("timestamp", int), ("config", FnConfig), ("state", FnState)):
      if cfg[name]: p.append(inspect.Parameter(name, inspect.Parameter.POSITIONAL_OR_KEYWORD, annotation=an))
    outs = [ TYPES[o] for o in cfg["outs"] ]
    ret = None if not outs else outs[0] if len(outs) == 1 and not cfg["tuple1"] else tuple[tuple(outs)]
    function.__signature__ = inspect.Signature(p, return_annotation=ret)
    return fntask(thread_safe=cfg["kind"] == "thread")(function)


class Pair:
  """Both tasks, as their host would run them."""
  def __init__(self, tasks):
    self.tasks, self.running, self.errors = tasks, [], [ None, None ]
  async def setup(self):
    for t in self.tasks: await t.setup()
  async def run(self):
    self.running = [ asyncio.create_task(t.run()) for t in self.tasks ]
    try: await asyncio.Event().wait()
    finally:
      for r in self.running: r.cancel()
      await asyncio.wait(self.running, timeout=4.0)
      for i, r in enumerate(self.running):
        if not r.done(): raise Violation("task-stuck", f"task {i} does not end within 4 s of being cancelled")


async def main(sim, case):
  cfg = case["cfg"]
  n, m = cfg["n"], len(cfg["outs"])
  f = Flow(sim, cfg, 2 * n, 2 * m)
  fn = Function(sim, cfg)
  context = fn.build()
  host = context.TaskHost()
  async def make(_):
    await f.switches[cfg["task"]["sw"]].add_link(await host.create_link())
    tasks = []
    for k in range(2):
      c = { "std_synchronized": cfg["synced"][k], **{ f"_in_tid_in{i}": IN0 + k * n + i for i in range(n) }, **{ f"_out_tid_{j}": OUT0 + k * m + j for j in range(m) } }
      if cfg["step"][k] is not None: c |= { "step": cfg["step"][k], "name": f"task{k}" }
      tasks.append(await host.create_task(c, None))
    return Pair(tasks)
  await f.start(make)
  def step(s, i, ev): # s: the newest value of each input
    v = content(cfg["types"][i], ev[1]) if ev[0] == "d" else None
    if v is None: return s, []
    s = s[:i] + (v,) + s[i+1:]
    return s, [ (ev[1]["timestamp"] if stamped else None, s) ] if None not in s else []
  stamped = cfg["timestamp"] or (m > 0 and not cfg["misfit"]) # it is known which message a call was made for
  hands = [ Hand(n, "plain" if cfg["synced"][k] else None, (None,) * n, step) for k in range(2) ]
  events, mark, paused, known = [ [] for _ in range(2 * n) ], [ 0, 0 ], [False] * 2 * n, [ True, True ]
  def compare(k):
    r, calls = f.obj.running[k], fn.calls[k]
    if fn.over[k]: return
    if r.done():
      e = None if r.cancelled() else r.exception()
      if k == 1 or fn.failed is None: raise Violation("task-died", f"task {k} ended by itself: {type(e).__name__}: {str(e)[:200]}")
      if e is None or (cfg["how"] == "raise" and not isinstance(e, FnError)): raise Violation("wrong-error", f"call {fn.failed} failed, the task ended with {e!r}")
      fn.over[k] = True
    elif k == 0 and fn.failed is not None: raise Violation("still-running", f"call {fn.failed} failed, the task goes on")
    for i, c in enumerate(calls):
      want = (cfg["step"][k], f"task{k}") if cfg["step"][k] is not None else (7, "unset")
      if cfg["config"] and c[2] != want: raise Violation("wrong-config", f"call {i} of task {k} got the config {c[2]}, it was started with {want}")
      if cfg["state"] and c[3] != i + 1: raise Violation("wrong-state", f"call {i} of task {k} found a state of {c[3] - 1} calls")
    carried = []
    for j in range(m):
      want = [ (i, r[j]) for i, r in enumerate(fn.results[k]) if not isinstance(r[j], dict) ]
      out = [ v for _, o, kind, v in f.out if kind == "d" and o == k * m + j ]
      key = "data" if cfg["outs"][j] == "bytes" else "value"
      if [ v.get(key) for v in out ] != [ v for _, v in want ]: raise Violation("wrong-output", f"task {k}: output {j} was to carry {[ v for _, v in want ]}, it carried {out}")
      carried.append([ (i, v["timestamp"]) for (i, _), v in zip(want, out) ])
    times = [ c[0] for c in calls ] if cfg["timestamp"] else [ x[1] for x in carried[0] ] + ([ None ] if fn.over[k] else []) if stamped else None
    if times is not None:
      for j, ts in enumerate(carried):
        for i, t in ts:
          if t != times[i]: raise Violation("wrong-timestamp", f"task {k}: call {i} was made for {times[i]}, its result on output {j} has the timestamp {t}")
    if not known[k]: return
    got = [ (times[i] if times else None, calls[i][1]) for i in range(mark[k], len(calls)) ]
    if fn.over[k] and got and got[-1][0] is None: got.pop() # the time of the call that failed is not known
    mark[k] = len(calls)
    evs = events[k * n:(k + 1) * n]
    before = hands[k].states
    ok = hands[k].phase(evs, got, partial=fn.over[k])
    if ok is None:
      sim.probe("too_many_orders")
      known[k] = False
    elif not ok: raise Violation("wrong-calls", f"task {k} ({'synchronised' if cfg['synced'][k] else 'plain'}): no order of the inputs {[ (i, e) for i, e in enumerate(evs) if e ]} after {sorted(map(repr, before))[:2]} explains the calls {got}")
    for e in evs: e.clear()
  t0 = sim.now
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      if fn.broken: raise fn.broken[0]
      for k in range(2): compare(k)
      t0 = sim.now - op[0]
      continue
    i = op[2]
    if op[1] == "pause":
      if op[3] != paused[i]:
        paused[i] = op[3]
        events[i].append(("p", op[3]))
        await f.pause(i, op[3])
      continue
    data = JUNK[op[3]] if op[1] == "junk" else payload(cfg["types"][i % n], op[3], op[4] + (1000 if i >= n else 0), op[1] == "data")
    if isinstance(data, dict): data = dict(data)
    events[i].append(("d", freeze(data)))
    await f.send(i, data)
  await f.stop()
  if fn.broken: raise fn.broken[0]
  fn.over = [ True, True ]
  await asyncio.sleep(1.0)
  if fn.broken: raise fn.broken[0]
  calls = sum(len(c) for c in fn.calls)
  sim.probe("calls", calls)
  return { "nontrivial": calls >= 5 and all(known) }


def run(case, keep_log=False):
  c = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": c["shuffle"], "stall_prob": c["stall_prob"], "stall_max": 0.4, "max_steps": 400_000 })
