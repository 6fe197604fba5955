"""C03: a persistent connection comes back after every kind of failure, without hammering."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.sim import Violation

ID = "C03"
SLACK = 2.5
RULE = ("seeded case = one auto-reconnecting connection (TCP, unix socket or websocket) and 2-14 timed faults: connection reset, server stopped and started again, connections refused in several ways, "
        "a server that hangs up, answers garbage, rejects, or accepts and goes away at once; non-trivial when the connection had to be re-established at least once; distinct by execution fingerprint")
REAL = ["streamtasks.connection (AutoReconnector, servers, handshake)", "streamtasks.net", "streamtasks.client", "websockets library on websocket cases"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams)"]


def gen(rng, tier="quick"):
  kind = rng.choice(["tcp", "unix", "ws", "tcp", "unix"])
  ops = []
  t = rng.choice([0.0, 0.5])
  if rng.random() < 0.7: ops.append([t, "up", "real"])
  for _ in range(rng.randint(2, 14)):
    t += rng.choice([0.0, 0.003, 0.05, 0.5, 1.0, 4.0, 4.0])
    r = rng.random()
    if r < 0.3: ops.append([round(t, 4), "reset"])
    elif r < 0.5: ops.append([round(t, 4), "down"])
    elif r < 0.8: ops.append([round(t, 4), "up", "real"])
    elif r < 0.9: ops.append([round(t, 4), "up", rng.choice(["hangup", "garbage", "reject", "truncate", "accept"]), rng.choice([0.0, 0.0, 0.0005, 0.001, 0.02])])
    else: ops.append([round(t, 4), "refuse", rng.choice(["refused", "missing", "timeout", "unreachable", "reset"]), round(rng.random() * 3, 3)])
  ops.append([round(t + 0.1, 4), "up", "real"])
  return { "seed": rng.getrandbits(48), "cfg": { "kind": kind, "delay": rng.choice([1, 1, 0.25, 3]), "frag": rng.choice([0.0, 0.5]),
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": 0.0 }, "ops": ops }


async def main(sim, case):
  import functools
  import msgpack
  from streamtasks.client import Client
  from streamtasks.client.receiver import Receiver
  from streamtasks.connection import AutoReconnector, RawStreamConnection, connect, create_server
  from streamtasks.net import ConnectionClosedError, Switch
  from streamtasks.net.messages import AddressedMessage
  from streamtasks.net.serialization import RawData
  cfg = case["cfg"]
  sim.net.profile.frag = cfg["frag"]
  kind, delay = cfg["kind"], cfg["delay"]
  url = "unix:///sim/r.sock" if kind == "unix" else f"{kind}://sim:9000"

  class Box(Receiver):
    def __init__(self, c):
      super().__init__(c)
      self.got = []
    def on_message(self, m):
      if isinstance(m, AddressedMessage): self.got.append(m.data.data)

  hub_switch = Switch()   # the server's side
  hub = Client(await hub_switch.add_local_connection())
  hub.start()
  await hub.set_address(1)
  hbox = Box(hub)
  await hbox.start_recv()

  attempts = []
  async def connect_fn():
    attempts.append(sim.now)
    return await connect(url)
  rec = AutoReconnector(connect_fn, delay)
  far = await rec.create_client()
  far.start()
  await far.set_address(2)
  fbox = Box(far)
  await fbox.start_recv()
  rec_task = asyncio.create_task(rec.run())

  cur = { "server": None, "task": None, "kind": None, "srv": None }
  key = ("unix", "/sim/r.sock") if kind == "unix" else ("tcp", "9000")
  healthy_since = None
  reconnects = 0
  nid = 0

  async def stop_server():
    nonlocal healthy_since
    healthy_since = None
    if cur["task"] is not None:
      cur["task"].cancel()
      try: await cur["task"]
      except asyncio.CancelledError: pass
      except BaseException: pass
      cur["task"] = None
    if cur["srv"] is not None:
      cur["srv"].close()
      cur["srv"] = None
    # the process is gone: the kernel closes whatever it had open
    for c in sim.net.open_conns(key): sim.net.reset_conn(c)
    await asyncio.sleep(0.01)

  async def start_real():
    nonlocal healthy_since
    s = create_server(url)
    await hub_switch.add_link(await s.create_link())
    cur["task"] = asyncio.create_task(s.run())
    cur["server"] = s
    await s.wait_running()
    await asyncio.sleep(0.005)
    healthy_since = sim.now

  async def start_fake(how, keep=0.02):
    async def on_conn(r, w):
      sim.fault("misbehaving_server")
      try:
        if how == "hangup": return w.close()
        if how != "accept": await r.read(10)
        if how == "garbage": w.write(bytes(range(200)) * 3)
        elif how == "truncate": w.write(RawStreamConnection.SYNC_WORD + b"\x40\0\0\0abc")
        elif how == "reject":
          d = msgpack.packb({ "accepted": False, "version": "0" })
          w.write(RawStreamConnection.SYNC_WORD + len(d).to_bytes(4, "little") + d)
        elif how == "accept": # lets the other side in and goes away at once
          if kind == "ws": raise ConnectionError()
          head = await r.readexactly(8)
          hello = msgpack.unpackb(await r.readexactly(int.from_bytes(head[4:], "little")))
          d = msgpack.packb({ "accepted": True, "version": hello["version"] })
          w.write(RawStreamConnection.SYNC_WORD + len(d).to_bytes(4, "little") + d)
          await w.drain()
        if keep: await asyncio.sleep(keep)
        w.close()
      except (ConnectionError, OSError, asyncio.IncompleteReadError): w.close()
    cur["srv"] = await (asyncio.start_unix_server(on_conn, "/sim/r.sock") if kind == "unix" else asyncio.start_server(on_conn, "sim", 9000))

  async def verify(final=False):
    nonlocal nid
    if rec_task.done(): raise Violation("gave-up", f"the connection is no longer being re-established: {rec_task.exception() if not rec_task.cancelled() else 'cancelled'!r}")
    if healthy_since is None or sim.now - healthy_since < delay + SLACK: return
    if not rec.connected: raise Violation("not-reconnected", f"the server has been healthy for {sim.now - healthy_since:.2f} s (delay {delay} s) and there is no connection")
    nid += 1
    await far.send_to((1, 7), RawData({ "n": nid }))
    await hub.send_to((2, 7), RawData({ "n": nid }))
    await asyncio.sleep(0.4)
    if { "n": nid } not in hbox.got or { "n": nid } not in fbox.got: raise Violation("connected-but-dead", f"reports a connection, but messages do not pass (to server {({'n': nid} in hbox.got)}, from server {({'n': nid} in fbox.got)})")
    sim.probe("verified_connected")

  t0 = sim.now
  for op in case["ops"]:
    while t0 + op[0] > sim.now:
      await asyncio.sleep(min(t0 + op[0] - sim.now, 3.5))
      if t0 + op[0] - sim.now > 0.5 or op[1] != "up": await verify()
    k = op[1]
    if k == "reset":
      conns = sim.net.open_conns(key)
      if conns:
        for c in conns: sim.net.reset_conn(c)
        if healthy_since is not None: healthy_since = sim.now
        reconnects += 1
    elif k == "down":
      if cur["task"] is not None or cur["srv"] is not None:
        sim.fault("server_crash")
        await stop_server()
    elif k == "up":
      if cur["kind"] == op[2] == "real" and cur["task"] is not None: continue
      if cur["task"] is not None or cur["srv"] is not None: await stop_server()
      reconnects += 1
      cur["kind"] = op[2]
      if op[2] == "real": await start_real()
      else: await start_fake(*op[2:])
    elif k == "refuse":
      exc = { "refused": lambda: ConnectionRefusedError(111, "refused"), "missing": lambda: FileNotFoundError(2, "missing"), "timeout": lambda: TimeoutError(110, "timed out"),
              "unreachable": lambda: OSError(113, "No route to host"), "reset": lambda: ConnectionResetError(104, "reset") }[op[2]]
      sim.net.refuse[key] = exc
      for c in sim.net.open_conns(key): sim.net.reset_conn(c)
      h = healthy_since
      healthy_since = None
      await asyncio.sleep(op[3])
      del sim.net.refuse[key]
      if cur["kind"] == "real" and cur["task"] is not None: healthy_since = sim.now
      reconnects += 1
  await asyncio.sleep(delay + SLACK + 0.1)
  await verify(True)
  if healthy_since is None: raise Violation("harness", "no healthy server at the end")
  gaps = [ b - a for a, b in zip(attempts, attempts[1:]) ]
  if gaps and min(gaps) < delay * 0.5: raise Violation("hammering", f"{len(attempts)} attempts, the closest only {min(gaps) * 1000:.1f} ms apart; the delay is {delay} s")
  # a lost connection is reported as such
  await stop_server()
  await asyncio.sleep(0.3)
  if rec.connected: raise Violation("stale-connected", "still reports a connection 0.3 s after it was lost and no server is left")
  rec_task.cancel()
  sim.probe("attempts", len(attempts))
  sim.states.add((kind, reconnects, len(attempts)))
  return { "nontrivial": reconnects > 1 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.05 })
