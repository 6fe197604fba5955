"""Networks of switches, links and clients used by several checks."""
from __future__ import annotations

import asyncio

from dst.sim import Violation


def gen_tree(rng, n):
  return [ (rng.randrange(i), i) for i in range(1, n) ]


def gen_edges(rng, n, kinds=("queue", "raw", "delay", "delay", "stream")):
  return [ { "a": a, "b": b, "kind": rng.choice(kinds), "cost": rng.choice([1, 1, 2, 5, 50]) } for a, b in gen_tree(rng, n) ]


class Intervals:
  """Half-open spans during which something held for certain."""
  def __init__(self): self.spans = []
  def on(self, t):
    if not self.spans or self.spans[-1][1] is not None: self.spans.append([t, None])
  def off(self, t):
    if self.spans and self.spans[-1][1] is None: self.spans[-1][1] = t
  def covers(self, a, b): return any(s <= a and (e is None or e > b) for s, e in self.spans)
  def overlaps(self, a, b): return any(s <= b and (e is None or e >= a) for s, e in self.spans)
  @property
  def active(self): return bool(self.spans) and self.spans[-1][1] is None


def make_switches(sim, cfg):
  from streamtasks.net import Switch
  sim.net.profile.lat_max = cfg.get("stream_lat", 0.004)
  return [ Switch() for _ in range(cfg["switches"]) ]


class EdgeRt:
  def __init__(self, spec, idx):
    self.spec, self.idx = spec, idx
    self.links = None
    self.gen = 0
    self.up = Intervals()


async def connect_edge(sim, switches, e: EdgeRt):
  from streamtasks.net import create_queue_connection
  from dst.netlab import delay_pair, stream_pair
  spec = e.spec
  e.gen += 1
  name = f"e{e.idx}.{e.gen}"
  conn = None
  if spec["kind"] == "queue": a, b = create_queue_connection()
  elif spec["kind"] == "raw": a, b = create_queue_connection(raw=True)
  elif spec["kind"] == "delay": a, b = delay_pair(sim, name, spec["cost"])
  else: a, b, conn = await stream_pair(sim, name, spec["cost"])
  e.links = (a, b, conn)
  await asyncio.gather(switches[spec["a"]].add_link(a), switches[spec["b"]].add_link(b))


def edge_path(edges, a, b):
  """The edges on the only path between two switches, whatever their state."""
  adj = {}
  for e in edges:
    adj.setdefault(e.spec["a"], []).append((e.spec["b"], e)); adj.setdefault(e.spec["b"], []).append((e.spec["a"], e))
  stack = [(a, [], { a })]
  while stack:
    x, p, seen = stack.pop()
    if x == b: return p
    for y, e in adj.get(x, []):
      if y not in seen: stack.append((y, p + [e], seen | { y }))
  return None


def edge_cost(spec): return spec["cost"] if spec["kind"] in ("delay", "stream") else 1


def cut_edge(sim, e, side="a"):
  if not e.up.active: return
  e.up.off(sim.now)
  sim.fault("link_cut")
  if e.links[2] is not None: sim.net.reset_conn(e.links[2])
  else: e.links[0 if side == "a" else 1].close()


async def join_edge(sim, switches, e):
  if e.up.active: return
  await asyncio.sleep(0.05) # both ends must have noticed the break before a new link is made
  if e.up.active: return
  sim.fault("link_heal")
  e.up.on(sim.now)
  await connect_edge(sim, switches, e)


async def client_link(sim, switch, kind, name):
  """(link for the client, object to close on a crash)"""
  from dst.netlab import delay_pair
  if kind == "queue": return await switch.add_local_connection()
  a, b = delay_pair(sim, name, 1)
  await switch.add_link(a)
  return b


def raise_failures(tasks):
  for b in tasks:
    if b.done() and not b.cancelled() and b.exception(): raise b.exception()
    if not b.done(): raise Violation("operation-stuck", "an operation did not finish")
