"""Simulated links between switches, and small helpers to build networks."""
from __future__ import annotations

import asyncio

from streamtasks.net import ConnectionClosedError, Link, Switch, create_queue_connection
from streamtasks.net.serialization import serialize_message, deserialize_message


class DelayLink(Link):
  """A link whose other end is on another machine: messages are serialised,
  arrive in order after a seeded latency, and those in flight when the link
  breaks are lost. Each side learns of the break separately."""
  def __init__(self, sim, cost, rng, lat, name):
    super().__init__(cost)
    self.sim, self._lrng, self._lat, self.name = sim, rng, lat, name
    self._inq: asyncio.Queue = asyncio.Queue()
    self.peer: "DelayLink | None" = None
    self._last = 0.0
    self.broken = False
    self._slock = asyncio.Lock()
    self.stalled = False
    self._wire: list = []    # on the way, in order
    self._due = 0            # arrivals that became due during a stall
    self.on_closed.append(self._on_close)

  async def _send(self, message):
    if self.sim.loop.is_closed(): return
    data = serialize_message(message)
    async with self._slock: # like a socket: sends complete in the order they were issued
      # sends over a network yield to other tasks
      if self._lrng.random() < 0.5: await asyncio.sleep(self._lrng.random() * 0.002)
      self._hand_over(data)

  def _hand_over(self, data):
    if self.broken:
      self.sim.fault("msg_lost_on_broken_link")
      if self.closed: raise ConnectionClosedError()
      return
    self._post(data)

  def _post(self, data):
    self._wire.append(data)
    d = self._lat[0] + self._lrng.random() * (self._lat[1] - self._lat[0])
    at = max(self.sim.now + d, self._last + 1e-7)
    self._last = at
    self.sim.loop.call_at(at, self._arrive)

  def _arrive(self):
    if self.broken:
      self.sim.fault("msg_lost_on_broken_link")
      return
    if self.stalled:
      self._due += 1
      return
    self.peer._inq.put_nowait(self._wire.pop(0))

  async def _recv(self):
    data = await self._inq.get()
    return deserialize_message(data)

  def stall(self, on: bool):
    self.stalled = on
    if not on:
      for _ in range(self._due): self.sim.loop.call_soon(self._arrive)
      self._due = 0

  def _on_close(self):
    if self.sim.loop.is_closed(): return
    self.snap()

  def snap(self, skew=None):
    """Break the link; each side notices after its own delay."""
    for l in (self, self.peer):
      if not l.broken:
        l.broken = True
        d = self._lrng.random() * 0.03
        l.sim.loop.call_later(d, l.close)


def delay_pair(sim, name, cost_a=1, cost_b=None, lat=(0.0005, 0.02)):
  a = DelayLink(sim, cost_a, sim.rng("link", name, "a"), lat, name + ".a")
  b = DelayLink(sim, cost_b or cost_a, sim.rng("link", name, "b"), lat, name + ".b")
  a.peer, b.peer = b, a
  return a, b


async def stream_pair(sim, name, cost=1):
  """Two RawConnectionLinks (the real framing code) over a simulated stream."""
  from dst.simnet import raw_pair
  from streamtasks.connection import RawConnectionLink, RawStreamConnection
  (ra, wa), (rb, wb), conn = raw_pair(sim, name)
  a = RawConnectionLink(RawStreamConnection(ra, wa), cost)
  b = RawConnectionLink(RawStreamConnection(rb, wb), cost)
  return a, b, conn
