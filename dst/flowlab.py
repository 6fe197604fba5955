"""Stream tasks on a simulated network: producers feed their input topics, a sink records what their output topics carry."""
from __future__ import annotations

import asyncio

from dst.lab import EdgeRt, client_link, connect_edge, gen_edges, make_switches
from dst.sim import Violation

IN0, OUT0 = 100, 200      # topic ids
SETTLE = 1.5


def gen_net(rng, n_in, n_sw=None):
  n = n_sw or rng.choice([1, 1, 2, 3])
  def place(): return { "sw": rng.randrange(n), "kind": rng.choice(["queue", "queue", "delay"]) }
  return { "switches": n, "edges": gen_edges(rng, n), "task": place(), "sink": place(), "sources": [ place() for _ in range(n_in) ],
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.0, 0.0005]) }


class Flow:
  """n_in producers on topics IN0.., one task, one sink on OUT0.. (and a witness on the inputs)."""
  def __init__(self, sim, cfg, n_in, n_out):
    self.sim, self.cfg, self.n_in, self.n_out = sim, cfg, n_in, n_out
    self.out = []            # (time, output, "d", payload) or (time, output, "p", paused)
    self.seen = [ [] for _ in range(n_in) ]   # payloads the witness got
    self.sent = [ [] for _ in range(n_in) ]
    self.task = None

  async def start(self, make, switches=None):
    """make(client) -> Task"""
    from streamtasks.client import Client
    cfg, sim = self.cfg, self.sim
    self.switches = switches or make_switches(sim, cfg)
    if switches is None:
      for i, s in enumerate(cfg["edges"]): await connect_edge(sim, self.switches, EdgeRt(s, i))
    async def client(spec, name):
      return Client(await client_link(sim, self.switches[spec["sw"]], spec["kind"], name))
    self.sources, self.pub = [], []
    for i in range(self.n_in):
      c = await client(cfg["sources"][i], f"src{i}")
      c.start()
      o = c.out_topic(IN0 + i)
      await o.start()
      await o.set_registered(True)
      self.sources.append(o); self.pub.append(c)
    sink = await client(cfg["sink"], "sink")
    sink.start()
    self.sink = sink
    await self._listen(sink)
    self.task_client = await client(cfg["task"], "task")
    await asyncio.sleep(0.5)
    t = make(self.task_client)
    self.obj = t = await t if asyncio.iscoroutine(t) else t
    await t.setup()
    self.task = asyncio.create_task(t.run())
    await self.settle()

  async def _listen(self, client):
    from streamtasks.client.receiver import Receiver
    from streamtasks.net.messages import TopicControlMessage, TopicDataMessage
    flow = self
    class Tap(Receiver): # in order of arrival, across topics
      def on_message(self, m):
        if not isinstance(m, (TopicControlMessage, TopicDataMessage)): return
        paused = m.to_data().paused if isinstance(m, TopicControlMessage) else None
        if OUT0 <= m.topic < OUT0 + flow.n_out: flow.out.append((flow.sim.now, m.topic - OUT0, "d" if paused is None else "p", m.data.data if paused is None else paused))
        elif IN0 <= m.topic < IN0 + flow.n_in and paused is None: flow.seen[m.topic - IN0].append(m.data.data)
    self.tap = Tap(client)
    await self.tap.start_recv()
    await client.register_in_topics([ *range(OUT0, OUT0 + self.n_out), *range(IN0, IN0 + self.n_in) ])

  def alive(self):
    if self.task is not None and self.task.done():
      e = None if self.task.cancelled() else self.task.exception()
      raise Violation("task-died", f"the task ended by itself: {type(e).__name__}: {str(e)[:200]}")

  async def send(self, i, payload):
    from streamtasks.net.serialization import RawData
    import copy
    self.sent[i].append(copy.deepcopy(payload))
    await self.sources[i].send(RawData(payload))

  async def pause(self, i, paused): await self.sources[i].set_paused(paused)

  async def settle(self, d=SETTLE):
    await asyncio.sleep(d)
    self.alive()

  def check_witness(self):
    for i in range(self.n_in):
      if self.seen[i] != self.sent[i]: raise Violation("input-changed", f"another consumer of input {i} was to get {self.sent[i][:20]}, it got {self.seen[i][:20]}")

  async def stop(self):
    self.task.cancel()
    await asyncio.wait([ self.task ], timeout=5.0)
    if not self.task.done(): raise Violation("task-stuck", "the task does not end within 5 s of being cancelled")
    e = None if self.task.cancelled() else self.task.exception()
    if e is not None: raise Violation("task-died", f"the task failed on its way out: {type(e).__name__}: {str(e)[:200]}")


# -- what a synchronised or plain reader of several topics may do with the events of a phase

class Hand:
  """All ways in which a task with one reader per input can take what has been sent.
  step(state, input, event) -> (state, [outputs]); event = ("d", payload) or ("p", paused); a payload's time is payload['timestamp'].
  prio: None = plain topics; "plain" = synchronised without priorities; a list = synchronised with priorities."""
  def __init__(self, n, prio, state, step):
    self.n, self.prio, self.step = n, prio, step
    self.states = { (tuple(() for _ in range(n)), tuple(None for _ in range(n)), (), state) } # (queue per input, message in hand that waits, known timestamps, task state)
    # with priorities: an input is done with its timestamp as soon as it looks for more, which it does at once

  def phase(self, events, outs, limit=20000, partial=False):
    """events: per input, in order. Afterwards only the states remain that have put out exactly outs. -> False when there is none.
    partial: it may have stopped before all events were taken."""
    start = { (tuple(q[i] + tuple(events[i]) for i in range(self.n)), w, ts, st, 0) for q, w, ts, st in self.states }
    seen, todo, final = set(start), list(start), set()
    outs = tuple(outs)
    def emit(pos, new):
      for o in new:
        if pos >= len(outs) or outs[pos] != o: return None
        pos += 1
      return pos
    while todo:
      if len(seen) > limit: return None
      node = todo.pop()
      q, w, ts, st, pos = node
      succ = []
      tsd = dict(ts)
      moved = False
      for i in range(self.n):
        if w[i] is not None: # waiting for its turn
          t = int(w[i]["timestamp"])
          if not self.waits(i, t, tsd, w):
            moved = True
            st2, new = self.step(st, i, ("d", w[i]))
            p2 = emit(pos, new)
            if p2 is not None: succ.append((q, w[:i] + (None,) + w[i+1:], ts, st2, p2))
        elif q[i]:
          moved = True
          ev, rest = q[i][0], q[:i] + (q[i][1:],) + q[i+1:]
          if self.prio is None:
            st2, new = self.step(st, i, (ev[0], unfreeze(ev[1])))
            p2 = emit(pos, new)
            if p2 is not None: succ.append((rest, w, ts, st2, p2))
          elif ev[0] == "p":
            d = dict(tsd)
            if ev[1]: d.pop(i, None)
            else: d[i] = min(d.values()) if d else 0
            st2, new = self.step(st, i, ev)
            p2 = emit(pos, new)
            if p2 is not None: succ.append((rest, w, tuple(sorted(d.items())), st2, p2))
          else:
            m = unfreeze(ev[1])
            t = timestamp(m)
            if t is None or t < tsd.get(i, 0): succ.append((rest, w, ts, st, pos)) # not handed over
            else:
              d = dict(tsd)
              d[i] = t
              succ.append((rest, w[:i] + (Frozen(m),) + w[i+1:], tuple(sorted(d.items())), st, pos))
      if (partial or not moved) and pos == len(outs): final.add((q, w, ts, st))
      for s in succ:
        if s not in seen: seen.add(s); todo.append(s)
    self.states = final
    return bool(final)

  def waits(self, i, t, tsd, w):
    lo = min(tsd.values()) if tsd else 0
    if lo < t: return True
    if self.prio == "plain": return False
    return any(j != i and v == lo and self.prio[j] > self.prio[i] and w[j] is not None for j, v in tsd.items())


class Frozen(dict):
  def __hash__(self): return hash(freeze(dict(self)))


def timestamp(m):
  t = m.get("timestamp") if isinstance(m, dict) else None
  return int(t) if isinstance(t, (int, float)) else None


def freeze(v):
  if isinstance(v, dict): return ("#d",) + tuple((k, freeze(x)) for k, x in v.items())
  if isinstance(v, list): return ("#l",) + tuple(freeze(x) for x in v)
  return v


def unfreeze(v):
  if isinstance(v, tuple) and v and v[0] == "#d": return { k: unfreeze(x) for k, x in v[1:] }
  if isinstance(v, tuple) and v and v[0] == "#l": return [ unfreeze(x) for x in v[1:] ]
  return v
