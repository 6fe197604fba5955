"""C02: only clients that present the server's secret and a matching version get in; every one of them does."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.sim import Violation

ID = "C02"
RULE = ("seeded case = one server (TCP, unix socket or websocket, with or without a secret) and 2-12 timed connection attempts: proper clients with the right, a wrong or no secret, clients of another version, "
        "clients that send garbage, stall, or hang up in the middle of the handshake, rejected clients that keep sending, plus servers that answer wrongly; non-trivial when both an accepted and a rejected attempt happened or at least 3 were accepted; distinct by execution fingerprint")
REAL = ["streamtasks.connection (handshake, servers, connect)", "streamtasks.net", "streamtasks.client", "websockets library on websocket cases", "asyncio streams"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams)"]


def gen(rng, tier="quick"):
  kind = rng.choice(["tcp", "unix", "ws", "unix", "tcp"])
  auth = rng.choice([None, "s3cret", "Zq", "s3cret"])
  ops = []
  t = 0.2
  for _ in range(rng.randint(2, 12)):
    t += rng.choice([0.0, 0.0, 0.002, 0.05, 0.4])
    r = rng.random()
    if r < 0.45: ops.append([round(t, 4), "connect", "right"])
    elif r < 0.6: ops.append([round(t, 4), "connect", rng.choice(["wrong", "none", "prefix", "empty"])])
    elif r < 0.68: ops.append([round(t, 4), "raw", "version", rng.choice(["0.0", "", None, "+.1", "+0", "-1"])])
    elif r < 0.76: ops.append([round(t, 4), "raw", "badauth", rng.choice(["wrong", None])])
    elif r < 0.82: ops.append([round(t, 4), "raw", "garbage", rng.randrange(1 << 30)])
    elif r < 0.86: ops.append([round(t, 4), "raw", "notdict", rng.choice([5, "x", None])])
    elif r < 0.91: ops.append([round(t, 4), "raw", "stall", 0])
    elif r < 0.95: ops.append([round(t, 4), "raw", "hangup", 0])
    else: ops.append([round(t, 4), "fakeserver", rng.choice(["reject", "version", "garbage", "hangup", "notdict", "silent-close"])])
    if rng.random() < 0.15: ops.append([round(t + rng.random() * 0.5, 4), "disconnect", rng.randrange(6)])
  ops.sort(key=lambda o: o[0])
  return { "seed": rng.getrandbits(48), "cfg": { "kind": kind, "auth": auth, "frag": rng.choice([0.0, 0.5]), "max_frag": rng.choice([1, 8, 64]),
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": 0.0 }, "ops": ops }


async def main(sim, case):
  import msgpack
  import websockets
  from streamtasks.client import Client
  from streamtasks.client.receiver import Receiver
  from streamtasks.connection import RawStreamConnection, RawWebsocketConnection, connect, create_server
  from streamtasks.net import ConnectionClosedError, Switch
  from streamtasks.net.messages import AddressedMessage
  from streamtasks.net.serialization import RawData, serialize_message
  cfg = case["cfg"]
  sim.net.profile.frag, sim.net.profile.max_frag = cfg["frag"], cfg["max_frag"]
  kind, auth = cfg["kind"], cfg["auth"]
  def url(a, port=9000):
    q = "" if a is None else f"?auth={a}"
    if kind == "unix": return f"unix:///sim/{port}.sock{q}"
    return f"{kind}://sim:{port}{q}"
  good_version = None

  class Box(Receiver):
    def __init__(self, c):
      super().__init__(c)
      self.got = []
    def on_message(self, m):
      if isinstance(m, AddressedMessage): self.got.append(m.data.data)

  main_switch = Switch()
  hub = Client(await main_switch.add_local_connection())
  hub.start()
  await hub.set_address(1)
  box = Box(hub)
  await box.start_recv()
  server = create_server(url(auth))
  await main_switch.add_link(await server.create_link())
  server_task = asyncio.create_task(server.run())
  await asyncio.wait_for(server.wait_running(), 5)
  await asyncio.sleep(0.1)

  live, accepted, rejected = [], 0, 0
  tasks = []
  nid = 0

  async def good(n, a):
    nonlocal accepted
    try: link = await asyncio.wait_for(connect(url(auth)), 3)
    except (asyncio.TimeoutError, TimeoutError): raise Violation("valid-client-hangs", f"attempt {n} with the right secret got no answer within 3 s")
    except Exception as e: raise Violation("valid-client-rejected", f"attempt {n} with the right secret failed: {type(e).__name__}: {e}")
    c = Client(link)
    c.start()
    cbox = Box(c)
    await cbox.start_recv()
    await c.set_address(100 + n)
    live.append((n, c, link, cbox))
    accepted += 1
    await asyncio.sleep(0.5)
    if link.closed: return
    await c.send_to((1, 5), RawData({ "from": n }))
    await hub.send_to((100 + n, 5), RawData({ "to": n }))
    await asyncio.sleep(0.5)
    if link.closed: return
    if { "from": n } not in box.got: raise Violation("accepted-but-isolated", f"attempt {n}: message to the server side did not arrive")
    if { "to": n } not in cbox.got: raise Violation("accepted-but-isolated", f"attempt {n}: message from the server side did not arrive")

  async def bad(n, a):
    nonlocal rejected
    try: link = await asyncio.wait_for(connect(url(a)), 3)
    except (asyncio.TimeoutError, TimeoutError): raise Violation("no-answer", f"attempt {n} with secret {a!r} got no answer within 3 s")
    except Exception:
      rejected += 1
      return
    raise Violation("wrong-secret-accepted", f"attempt {n} got in with secret {a!r}; the server's is {auth!r}")

  async def open_raw(port=9000):
    if kind == "unix": rw = await asyncio.open_unix_connection(f"/sim/{port}.sock")
    elif kind == "tcp": rw = await asyncio.open_connection("sim", port)
    else: return RawWebsocketConnection(await websockets.connect(f"ws://sim:{port}")), None
    return RawStreamConnection(*rw), rw[1]

  async def raw(n, what, arg):
    nonlocal rejected
    conn, writer = await open_raw()
    import streamtasks.connection as sc
    from importlib.metadata import version
    v = ".".join(version("streamtasks").split(".")[:2])
    right = {} if auth is None else { "auth": auth }
    wrong = { "auth": "other" } if arg == "wrong" else {}
    if what == "version" and arg and arg[0] in "+-": arg = v + arg[1:] if arg[0] == "+" else v[:-int(arg[1:])] # almost the right one
    if what == "version": hello = msgpack.packb({ **right, "version": arg })
    elif what == "badauth":
      if wrong == right: return conn.close()
      hello = msgpack.packb({ **wrong, "version": v })
    elif what == "notdict": hello = msgpack.packb(arg)
    elif what == "garbage":
      g = sim.rng("g", arg)
      hello = bytes(g.randrange(256) for _ in range(g.randint(1, 40)))
    elif what == "stall":
      sim.fault("handshake_stalled")
      await asyncio.sleep(4)
      return conn.close()
    else:
      sim.fault("handshake_hangup")
      if writer is not None: writer.write(RawStreamConnection.SYNC_WORD[:2] if n % 2 else RawStreamConnection.SYNC_WORD + b"\x30\0\0\0ab")
      return conn.close()
    sim.fault("hostile_client")
    try:
      await conn.send(hello)
      try: ans = msgpack.unpackb(await asyncio.wait_for(conn.recv(), 2))
      except (asyncio.TimeoutError, TimeoutError): raise Violation("hostile-not-closed", f"attempt {n} ({what} {arg!r}) is neither answered nor closed")
      except ConnectionClosedError: ans = {}
      if isinstance(ans, dict) and ans.get("accepted"): raise Violation("wrong-client-accepted", f"attempt {n}: {what} {arg!r} was accepted")
      if auth is not None and auth in repr(ans): raise Violation("secret-leaked", f"attempt {n}: the server's answer {ans!r} contains its secret")
      # whatever it sends next must go nowhere
      for _ in range(3):
        await conn.send(serialize_message(AddressedMessage(1, 5, RawData({ "intruder": n }))))
        await asyncio.sleep(0.1)
    except ConnectionClosedError: pass
    rejected += 1
    # the server hangs up on it
    try:
      while True: await asyncio.wait_for(conn.recv(), 2)
    except ConnectionClosedError: pass
    except (asyncio.TimeoutError, TimeoutError): raise Violation("hostile-not-closed", f"attempt {n} ({what} {arg!r}) is still connected")
    conn.close()

  async def fake(n, how):
    nonlocal rejected
    if kind == "ws": return
    sim.fault("misbehaving_server")
    closed = asyncio.Event()
    async def on_conn(r, w):
      c = RawStreamConnection(r, w)
      try:
        await c.recv()
        if how == "reject": await c.send(msgpack.packb({ "accepted": False, "version": (await my_version()) }))
        elif how == "version": await c.send(msgpack.packb({ "accepted": True, "version": "0.0" }))
        elif how == "garbage": await c.send(b"\xc1\xff\x00")
        elif how == "notdict": await c.send(msgpack.packb([1]))
        elif how == "hangup":
          w.write(RawStreamConnection.SYNC_WORD + b"\x10\0\0\0ab")
          w.close()
        else: w.close()
        try: await c.recv()
        except ConnectionClosedError: closed.set()
        w.close()
      except ConnectionClosedError: closed.set()
    port = 9100 + n
    srv = await (asyncio.start_unix_server(on_conn, f"/sim/{port}.sock") if kind == "unix" else asyncio.start_server(on_conn, "sim", port))
    try:
      await asyncio.wait_for(connect(url(None, port)), 3)
      raise Violation("bad-server-accepted", f"connecting to a server that answers with {how!r} succeeded")
    except (asyncio.TimeoutError, TimeoutError): raise Violation("no-answer", f"connecting to a server that answers with {how!r} hangs")
    except Violation: raise
    except Exception: rejected += 1
    try: await asyncio.wait_for(closed.wait(), 2)
    except (asyncio.TimeoutError, TimeoutError): raise Violation("client-leaks-connection", f"the failed connection attempt ({how}) left its connection open")
    srv.close()

  async def my_version():
    from importlib.metadata import version
    return ".".join(version("streamtasks").split(".")[:2])

  t0 = sim.now
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "connect":
      a = { "right": auth, "wrong": "nope", "none": None, "prefix": (auth or "x")[:-1] or "y", "empty": (auth or "") + "x" }[op[2]]
      tasks.append(asyncio.create_task(good(n, a) if a == auth else bad(n, a)))
    elif op[1] == "raw": tasks.append(asyncio.create_task(raw(n, op[2], op[3])))
    elif op[1] == "fakeserver": tasks.append(asyncio.create_task(fake(n, op[2])))
    elif op[1] == "disconnect" and live:
      n_, c, link, b = live[op[2] % len(live)]
      if not link.closed:
        sim.fault("client_disconnect")
        link.close()
  await asyncio.sleep(7)
  for t in tasks:
    if not t.done(): raise Violation("attempt-stuck", "a connection attempt never finished")
    if t.exception(): raise t.exception()
  if any("intruder" in d for d in box.got): raise Violation("rejected-client-heard", f"messages of a rejected client were delivered: {box.got}")
  if server_task.done(): raise Violation("server-died", repr(server_task.exception()))
  open_now = [ l for l in live if not l[2].closed ]
  if server.connection_count != len(open_now): raise Violation("connection-count", f"server reports {server.connection_count} connections, {len(open_now)} are open")
  for _, c, link, b in live: link.close()
  await asyncio.sleep(1)
  if server.connection_count != 0: raise Violation("connection-count", f"server reports {server.connection_count} connections after all were closed")
  server_task.cancel()
  sim.probe("accepted", accepted); sim.probe("rejected", rejected)
  sim.states.add((kind, auth is None, accepted, rejected))
  return { "nontrivial": (accepted and rejected) or accepted >= 3 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.05 })
