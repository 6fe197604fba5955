"""U01: consumers of a shared producer get every item once and in order, then the end; it runs only while somebody waits."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.sim import SimThread, Violation, thread_yield

ID = "U01"
RULE = ("seeded case = one producer (in the event loop or in a thread) with 0-12 items, an end, an error or neither, 1-4 consumers with overlapping filters that register, leave, loop, ask with a time limit, are cancelled or ask in parallel at any moment, "
        "a producer that is closed meanwhile or before it ran; non-trivial when at least two consumers got items; distinct by execution fingerprint")
REAL = ["streamtasks.utils (AsyncProducer, AsyncMPProducer, AsyncConsumer, AsyncTrigger)"]
STUB = ["event loop, clock (simulator)", "the worker thread (runs under the simulator's baton)", "the producer's source (scripted)"]
COUNT = { "quick": 40000, "thorough": 4000000 }
BOUND = 1.0


def gen(rng, tier="quick"):
  n = rng.choice([1, 1, 2, 2, 3, 4])
  items = [ [rng.randrange(3), rng.choice([0.0, 0.0, 0.001, 0.02, 0.1])] for _ in range(rng.choice([0, 1, 2, 3, 6, 12])) ]
  ops, t = [], 0.0
  for _ in range(rng.randint(2, 16)):
    t += rng.choice([0.0, 0.0, 0.0005, 0.001, 0.01, 0.05, 0.2])
    c = rng.randrange(n)
    r = rng.random()
    if r < 0.35: op = ["loop", c, rng.choice([0.0, 0.0, 0.01])]
    elif r < 0.5: op = ["one", c]
    elif r < 0.62: op = ["limited", c, rng.choice([0.0005, 0.001, 0.003, 0.02])]
    elif r < 0.85: op = ["cancel", c]
    elif r < 0.93: op = ["twice", c]
    elif r < 0.97: op = ["settle"]
    else: op = ["close"]
    ops.append([round(t, 5), *op])
  return { "seed": rng.getrandbits(48), "cfg": { "n": n, "mp": rng.random() < 0.5, "items": items, "end": rng.choice(["eof", "eof", "eof", "error", "idle", "idle"]), "cleanup": rng.choice([0.0, 0.0, 0.001, 0.01]),
                                                "filters": [ sorted(rng.sample(range(3), rng.choice([1, 2, 3, 3]))) for _ in range(n) ], "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": 0.0 }, "ops": ops }


class SourceError(Exception): pass


class Source:
  """What both kinds of producer read from; goes on where it was stopped."""
  def __init__(self, sim, cfg):
    self.sim, self.cfg, self.pos, self.inside, self.sent = sim, cfg, 0, 0, []
    self.ended = None
    self.last_run = 0.0
  def enter(self):
    self.inside += 1
    if self.inside > 1: raise Violation("two-at-once", "the producer was started while it was still running")
  def leave(self):
    self.inside -= 1
    self.last_run = self.sim.now
  def wait(self):
    return self.cfg["items"][self.pos][1] if self.pos < len(self.cfg["items"]) else 0.005
  def step(self, send):
    if self.pos < len(self.cfg["items"]):
      item = (self.pos, self.cfg["items"][self.pos][0])
      self.pos += 1
      self.sent.append(item)
      send(item)
    elif self.cfg["end"] == "eof":
      self.ended = "eof"
      raise EOFError()
    elif self.cfg["end"] == "error":
      self.ended = "error"
      raise SourceError("cannot read")


async def main(sim, case):
  from streamtasks.utils import AsyncConsumer, AsyncMPProducer, AsyncProducer
  cfg = case["cfg"]
  src = Source(sim, cfg)
  broken = []
  class Plain(AsyncProducer):
    async def run(self):
      src.enter()
      try:
        while True:
          await asyncio.sleep(src.wait())
          src.step(self.send_message)
      except Violation as e: broken.append(e)
      finally:
        try:
          if cfg["cleanup"]: await asyncio.sleep(cfg["cleanup"])
        finally: src.leave()
  class Threaded(AsyncMPProducer):
    def run_sync(self):
      src.enter()
      try:
        while not self.stop_event.is_set():
          thread_yield(src.wait())
          src.step(self.send_message)
        if cfg["cleanup"]: thread_yield(cfg["cleanup"])
      except Violation as e: broken.append(e)
      finally: src.leave()
  class Consumer(AsyncConsumer):
    def __init__(self, producer, k):
      super().__init__(producer)
      self.k = k
    def __hash__(self): return self.k
    def __eq__(self, o): return self is o
    def test_message(self, m): return m[1] in cfg["filters"][self.k]
  producer = (Threaded if cfg["mp"] else Plain)()
  consumers = [ Consumer(producer, k) for k in range(cfg["n"]) ]
  for c in consumers: c.register()
  got = [ [] for _ in consumers ]     # items in the order in which get() returned them
  ends = [ 0 for _ in consumers ]
  getters = [ [] for _ in consumers ] # (task, kind)
  closed = False
  def take(k, item):
    if ends[k] and not parallel[k] and not closed: raise Violation("after-end", f"consumer {k} was told that it is at the end, then it got item {item}")
    got[k].append(item)
  parallel = [ False for _ in consumers ]
  async def loop(k, d):
    while True:
      try: item = await consumers[k].get()
      except (EOFError, SourceError) as e:
        finish(k, e)
        return
      take(k, item)
      if d: await asyncio.sleep(d)
  async def one(k):
    try: item = await consumers[k].get()
    except (EOFError, SourceError) as e: return finish(k, e)
    take(k, item)
  def finish(k, e):
    ends[k] += 1
    if isinstance(e, SourceError) and src.ended != "error": raise Violation("wrong-end", f"consumer {k} got an error that never happened")
    if isinstance(e, EOFError) and not closed and src.ended is None: raise Violation("wrong-end", f"consumer {k} was told that it is at the end, the producer goes on")
  async def limited(k, d):
    try: await asyncio.wait_for(one(k), d)
    except asyncio.TimeoutError: pass
  def busy(k): return any(not t.done() for t, _ in getters[k])
  def check_done():
    if broken: raise broken[0]
    for k in range(cfg["n"]):
      for t, kind in getters[k]:
        if t.done() and not t.cancelled() and t.exception() is not None: raise t.exception() if isinstance(t.exception(), Violation) else Violation("failed", f"consumer {k} ({kind}) failed: {t.exception()!r}")
  def check(quiet):
    check_done()
    for k in range(cfg["n"]):
      mine = [ i for i in src.sent if i[1] in cfg["filters"][k] ]
      if (sorted(got[k]) if parallel[k] else got[k]) != mine[:len(got[k])]: raise Violation("wrong-items", f"consumer {k} was to get {mine}, it got {got[k]}")
      if ends[k] and not closed and len(got[k]) < len(mine): raise Violation("lost", f"consumer {k} was told that it is at the end, items {mine[len(got[k]):]} never came")
      if quiet and busy(k):
        if len(got[k]) < len(mine): raise Violation("stuck", f"consumer {k} waits, {mine[len(got[k]):]} are there")
        if closed or src.ended: raise Violation("stuck", f"consumer {k} waits, the producer is at its end ({'closed' if closed else src.ended})")
        if src.pos < len(cfg["items"]) or cfg["end"] != "idle": raise Violation("stuck", f"consumer {k} waits, the producer has stopped at {src.pos} of {len(cfg['items'])}")
    waiting = any(busy(k) for k in range(cfg["n"]))
    if quiet and not waiting and src.inside: raise Violation("not-stopped", "the producer runs on although nobody waits for it")
    if quiet and waiting and not src.inside: raise Violation("not-running", "consumers wait for a producer that does not run")
  async def cancel(k):
    for t, kind in getters[k]:
      if not t.done(): t.cancel()
    mine = [ t for t, _ in getters[k] if not t.done() ]
    if mine:
      await asyncio.wait(mine, timeout=BOUND)
      if any(not t.done() for t in mine): raise Violation("not-cancelled", f"consumer {k} was cancelled, it goes on")
  t0 = sim.now
  back = set()
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    check_done()
    if op[1] == "settle":
      await asyncio.sleep(BOUND)
      check(True)
      t0 = sim.now - op[0]
    elif op[1] == "close":
      if closed: continue
      closed = True
      sim.fault("producer_closed")
      try: await asyncio.wait_for(producer.close(), BOUND)
      except asyncio.TimeoutError: raise Violation("close-stuck", "closing the producer takes forever")
    elif op[1] == "cancel":
      sim.fault("consumer_cancelled")
      t = asyncio.create_task(cancel(op[2]))
      back.add(t)
    elif op[1] in ("loop", "one", "limited", "twice"):
      k = op[2]
      if op[1] != "twice" and busy(k): continue
      if op[1] == "twice": parallel[k] = True
      coro = loop(k, op[3]) if op[1] == "loop" else limited(k, op[3]) if op[1] == "limited" else one(k)
      getters[k].append((asyncio.create_task(coro), op[1]))
  await asyncio.sleep(BOUND)
  check(True)
  for t in back:
    await asyncio.sleep(0)
    if t.done(): t.result()
  # whoever comes back later finds what is left
  for k in range(cfg["n"]): await cancel(k)
  await asyncio.sleep(BOUND)
  check(True)
  for k in range(cfg["n"]): getters[k].append((asyncio.create_task(loop(k, 0.0)), "loop"))
  await asyncio.sleep(BOUND + 2.0)
  check(True)
  for k in range(cfg["n"]): await cancel(k)
  await asyncio.sleep(BOUND)
  check(True)
  sim.probe("items", sum(map(len, got)))
  return { "nontrivial": sum(bool(g) for g in got) >= 2 }


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
