"""In-memory byte-stream network under the simulator: in-order delivery per
direction with seeded latency, fragmentation, back-pressure, stalls
(partitions), resets, half-closes and refused connections."""
from __future__ import annotations

import asyncio
from asyncio import transports


class StreamProfile:
  def __init__(self, lat_min=0.0002, lat_max=0.004, frag=0.3, max_frag=64, high_water=16384):
    self.lat_min, self.lat_max, self.frag, self.max_frag, self.high_water = lat_min, lat_max, frag, max_frag, high_water


class SimTransport(transports.Transport):
  def __init__(self, net, conn, side, protocol, extra):
    super().__init__(extra)
    self.net, self.conn, self.side = net, conn, side
    self.loop = net.sim.loop
    self._protocol = protocol
    self.rng = net.sim.rng("stream", conn.cid, side)
    self.peer: SimTransport | None = None
    self._closing = False
    self._lost = False
    self._eof_sent = False       # our side sends nothing more
    self._eof_called = False     # write_eof() was used
    self._in_flight = 0          # bytes written by us, not yet delivered
    self._paused_writing = False
    self._read_paused = False
    self._inbox: list = []       # items waiting to be delivered to our protocol
    self._last_at = 0.0
    self._wire: list = []        # on the way, in order
    self._due = 0                # deliveries that became due during a stall
    self._limits = (net.profile.high_water // 4, net.profile.high_water)

  # -- protocol
  def set_protocol(self, protocol): self._protocol = protocol
  def get_protocol(self): return self._protocol
  def is_closing(self): return self._closing
  def is_reading(self): return not self._read_paused and not self._closing
  def pause_reading(self): self._read_paused = True
  def resume_reading(self):
    if self._read_paused:
      self._read_paused = False
      self.loop.call_soon(self._flush_inbox)
  def set_write_buffer_limits(self, high=None, low=None):
    high = 65536 if high is None else high
    low = high // 4 if low is None else low
    self._limits = (low, high)
  def get_write_buffer_limits(self): return self._limits
  def get_write_buffer_size(self): return self._in_flight
  def can_write_eof(self): return True

  # -- writing
  def write(self, data):
    if self._eof_called: raise RuntimeError("Cannot call write() after write_eof()")
    if not data or self._closing or self._lost: return
    data = bytes(data)
    self._in_flight += len(data)
    p = self.net.profile
    while data:
      n = len(data)
      if p.frag and self.rng.random() < p.frag:
        n = self.rng.randint(1, min(len(data), p.max_frag))
        if n < len(data): self.net.sim.fault("stream_fragment")
      self._post(data[:n])
      data = data[n:]
    if self._in_flight > self._limits[1] and not self._paused_writing:
      self._paused_writing = True
      self.net.sim.probe("backpressure")
      self._protocol.pause_writing()
  def writelines(self, lines): self.write(b"".join(lines))
  def write_eof(self):
    self._eof_called = True
    if not self._eof_sent:
      self._eof_sent = True
      self._post(None)

  def _post(self, item):
    if self.loop.is_closed(): return
    self._wire.append(item)
    p = self.net.profile
    at = max(self.loop.time() + p.lat_min + self.rng.random() * (p.lat_max - p.lat_min), self._last_at + 1e-7)
    self._last_at = at
    self.loop.call_at(at, self._deliver)

  def unstall(self):
    for _ in range(self._due): self.loop.call_soon(self._deliver)
    self._due = 0

  def _deliver(self):
    if self.conn.dead: return
    if self.conn.stalled:
      self._due += 1
      return
    item = self._wire.pop(0) # always the oldest: the stream never reorders
    if isinstance(item, bytes):
      self._in_flight -= len(item)
      if self._paused_writing and self._in_flight <= self._limits[0]:
        self._paused_writing = False
        if not self._lost: self._protocol.resume_writing()
    peer = self.peer
    if peer is None or peer._lost:
      if isinstance(item, bytes) and not self._lost:  # the other end answers with RST
        self.loop.call_soon(self._die, ConnectionResetError("Connection reset by peer"))
      return
    peer._inbox.append(item)
    peer._flush_inbox()

  def _flush_inbox(self):
    while self._inbox and not self._read_paused and not self._lost:
      item = self._inbox.pop(0)
      if item is None:
        keep = self._protocol.eof_received()
        if not keep: self.close()
      elif isinstance(item, BaseException):
        self._die(item)
      elif self._closing: continue
      elif isinstance(self._protocol, asyncio.BufferedProtocol):
        view = memoryview(item)
        while view:
          buf = self._protocol.get_buffer(len(view))
          n = min(len(buf), len(view))
          buf[:n] = view[:n]
          self._protocol.buffer_updated(n)
          view = view[n:]
      else: self._protocol.data_received(item)

  # -- closing
  def close(self):
    if self._closing: return
    self._closing = True
    if self.loop.is_closed(): return
    if not self._eof_sent:
      self._eof_sent = True
      self._post(None)
    self.loop.call_soon(self._die, None)
  def abort(self): self.reset()
  def reset(self, exc=None):
    """Connection reset: both ends lose the connection, bytes in flight are gone."""
    if self.conn.dead or self.loop.is_closed(): return
    self.conn.dead = True
    for t in (self, self.peer):
      if t is not None and not t._lost:
        t._closing = True
        t.loop.call_soon(t._die, exc or ConnectionResetError("Connection reset by peer"))
  def _die(self, exc):
    if self._lost: return
    self._lost = True
    self._closing = True
    try: self._protocol.connection_lost(exc)
    finally: self.net.on_transport_lost(self)


class Conn:
  def __init__(self, cid, key):
    self.cid, self.key = cid, key
    self.stalled = False
    self.dead = False
    self.a: SimTransport | None = None
    self.b: SimTransport | None = None
  @property
  def open(self): return not self.dead and not (self.a._lost or self.b._lost)


class SimServer(asyncio.AbstractServer):
  def __init__(self, net, key, factory):
    self.net, self.key, self.factory = net, key, factory
    self._serving = True
    self._closed = asyncio.Event()
    self._forever = None
    self.sockets = []
  def get_loop(self): return self.net.sim.loop
  def is_serving(self): return self._serving
  async def start_serving(self): pass
  def close(self):
    if not self._serving: return
    self._serving = False
    if self.net.servers.get(self.key) is self: del self.net.servers[self.key]
    if self._forever is not None and not self._forever.done(): self._forever.cancel()
    self._closed.set()
  def close_clients(self): pass
  def abort_clients(self): pass
  async def wait_closed(self): await self._closed.wait()
  async def serve_forever(self):
    self._forever = self.net.sim.loop.create_future()
    try: await self._forever
    except asyncio.CancelledError:
      self.close()
      raise
    finally: self._forever = None
  async def __aenter__(self): return self
  async def __aexit__(self, *_):
    self.close()
    await self.wait_closed()


class SimNet:
  def __init__(self, sim):
    self.sim = sim
    self.profile = StreamProfile()
    self.servers: dict = {}
    self.conns: list[Conn] = []
    self.refuse: dict = {}   # key -> exception factory: connection attempts fail
    self.connect_attempts: list = []

  def norm(self, key):
    if key[0] == "tcp": return ("tcp", str(key[-1]))
    return key

  async def create_server(self, loop, factory, key, kw):
    key = self.norm(key)
    if key in self.servers: raise OSError(98, "Address already in use")
    s = SimServer(self, key, factory)
    self.servers[key] = s
    return s

  async def create_connection(self, loop, factory, key, kw):
    key = self.norm(key)
    self.connect_attempts.append((self.sim.now, key))
    rng = self.sim.rng("connect", len(self.connect_attempts))
    await asyncio.sleep(0.0005 + rng.random() * 0.003)
    if key in self.refuse:
      self.sim.fault("connect_refused")
      raise self.refuse[key]()
    server = self.servers.get(key)
    if server is None:
      self.sim.fault("connect_refused")
      if key[0] == "unix": raise FileNotFoundError(2, "No such file or directory")
      raise ConnectionRefusedError(111, "Connect call failed")
    conn = Conn(len(self.conns), key)
    self.conns.append(conn)
    cp, sp = factory(), server.factory()
    conn.a = SimTransport(self, conn, "c", cp, {"peername": ("127.0.0.1", key[1]), "sockname": ("127.0.0.1", 50000 + conn.cid)})
    conn.b = SimTransport(self, conn, "s", sp, {"peername": ("127.0.0.1", 50000 + conn.cid), "sockname": ("127.0.0.1", key[1])})
    conn.a.peer, conn.b.peer = conn.b, conn.a
    sp.connection_made(conn.b)
    cp.connection_made(conn.a)
    return conn.a, cp

  def on_transport_lost(self, t): pass
  def open_conns(self, key=None):
    key = self.norm(key) if key else None
    return [ c for c in self.conns if c.open and (key is None or c.key == key) ]

  # -- faults
  def reset_conn(self, conn):
    self.sim.fault("conn_reset")
    conn.a.reset()
  def stall_conn(self, conn):
    self.sim.fault("conn_stall")
    conn.stalled = True
  def heal_conn(self, conn):
    conn.stalled = False
    for t in (conn.a, conn.b): t.unstall()
  def shutdown(self):
    for c in self.conns: c.dead = True


def raw_pair(sim, label="pair"):
  """Two connected (StreamReader, StreamWriter) pairs and the Conn between."""
  loop = sim.loop
  conn = Conn(f"{label}{len(sim.net.conns)}", ("pair", label))
  sim.net.conns.append(conn)
  out = []
  for side in ("a", "b"):
    reader = asyncio.StreamReader(limit=2 ** 16, loop=loop)
    protocol = asyncio.StreamReaderProtocol(reader, loop=loop)
    t = SimTransport(sim.net, conn, side, protocol, {})
    setattr(conn, side, t)
    out.append((reader, protocol, t))
  conn.a.peer, conn.b.peer = conn.b, conn.a
  res = []
  for reader, protocol, t in out:
    protocol.connection_made(t)
    res.append((reader, asyncio.StreamWriter(t, protocol, reader, loop)))
  return res[0], res[1], conn
