"""N03: addressed messages reach the owner of the address, once, in order."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, Intervals, client_link, connect_edge, cut_edge, edge_path, gen_edges, join_edge, make_switches, raise_failures
from dst.sim import Violation

ID = "N03"
GUARD = 3.0
RULE = ("seeded case = random loop-free network, 2-7 clients, 1-4 addresses that are taken, given up and moved between clients, 10-60 timed operations (send, take, move, cut, restore, crash); "
        "non-trivial when at least one message had to arrive because owner and route were stable; distinct by execution fingerprint")
REAL = ["streamtasks.net", "streamtasks.client (Client, Receiver)", "streamtasks.connection framing on stream edges"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams / delayed links)"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
  edges = gen_edges(rng, n_sw)
  n_cl = rng.randint(2, 7)
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) } for _ in range(n_cl) ]
  n_addr = rng.randint(1, min(4, n_cl))
  ops = []
  for a, c in enumerate(rng.sample(range(n_cl), n_addr)): ops.append([0.0, "take", a, c])
  t = rng.choice([0.0, 3.2])
  faults = rng.random() < 0.5
  churn = rng.random() < 0.7
  for _ in range(rng.randint(8, 40)):
    t += rng.choice([0.0, 0.001, 0.01, 0.2, 3.2])
    r = rng.random()
    if r < 0.6:
      for _ in range(rng.choice([1, 1, 4])): ops.append([round(t, 4), "send", rng.randrange(n_cl), rng.randrange(n_addr + (rng.random() < 0.1)), rng.randrange(3)])
    elif r < 0.72 and churn: ops.append([round(t, 4), "take", rng.randrange(n_addr), rng.randrange(n_cl)])
    elif r < 0.77 and churn: ops.append([round(t, 4), "release", rng.randrange(n_addr)])
    elif r < 0.86 and faults and edges: ops.append([round(t, 4), "cut", rng.randrange(len(edges)), rng.choice(["a", "b"])])
    elif r < 0.97 and faults and edges: ops.append([round(t, 4), "join", rng.randrange(len(edges))])
    elif faults: ops.append([round(t, 4), "drop", rng.randrange(n_cl)])
  t += 3.2
  for a in range(n_addr): ops.append([round(t, 4), "send", rng.randrange(n_cl), a, 0])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "clients": clients, "addrs": n_addr,
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.002]), "stream_lat": rng.choice([0.004, 0.02]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.client.receiver import Receiver
  from streamtasks.net import ConnectionClosedError
  from streamtasks.net.messages import AddressedMessage
  from streamtasks.net.serialization import RawData
  cfg = case["cfg"]
  base = 5000
  n_addr = cfg["addrs"]
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]

  class Box(Receiver):
    def __init__(self, c):
      super().__init__(c.client)
      self.c = c
    def on_message(self, message):
      if isinstance(message, AddressedMessage): self.c.got.append((sim.now, message.address, message.port, message.data.data))

  class Cl: pass
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c = Cl()
    c.i, c.spec, c.alive, c.got, c.addr = i, spec, True, [], None
    c.link = await client_link(sim, switches[spec["sw"]], spec["kind"], f"c{i}")
    c.client = Client(c.link)
    c.client.start()
    c.alive_iv = Intervals(); c.alive_iv.on(sim.now)
    c.own = { a: Intervals() for a in range(n_addr + 1) }     # owned for certain
    c.maybe = { a: Intervals() for a in range(n_addr + 1) }   # owned, or routes may still lead here
    c.sendq = asyncio.Queue()
    c.box = Box(c)
    await c.box.start_recv()
    clients.append(c)
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)
  owner = {}
  locks = [ asyncio.Lock() for _ in range(n_addr) ]
  clock = asyncio.Lock()
  sent = []

  async def guard(coro):
    try: await coro
    except ConnectionClosedError: pass
  bg = []
  def spawn(coro): bg.append(asyncio.create_task(guard(coro)))

  async def sender(c):
    while True:
      a, port, mid = await c.sendq.get()
      await c.client.send_to((base + a, port), RawData({ "id": mid, "pad": "x" * (mid % 5) }))
  senders = [ asyncio.create_task(guard(sender(c))) for c in clients ]

  async def take(a, c):
    # an address has one owner; a client has one address
    async with clock:
      if owner.get(a) is c: return
      if not c.alive: return
      old = owner.pop(a, None)
      if old is not None and old.alive:
        old.own[a].off(sim.now)
        await guard(old.client.set_address(None))
        old.addr = None
      if c.addr is not None:
        c.own[c.addr].off(sim.now)
        owner.pop(c.addr, None)
      c.maybe[a].on(sim.now)
      prev, c.addr = c.addr, a
      owner[a] = c
      await c.client.set_address(base + a)
      if c.alive: c.own[a].on(sim.now)
  async def release(a):
    async with clock:
      c = owner.pop(a, None)
      if c is None or not c.alive: return
      c.own[a].off(sim.now)
      c.addr = None
      await c.client.set_address(None)

  t0 = sim.now
  for op in case["ops"]:
    at = t0 + op[0]
    if at > sim.now: await asyncio.sleep(at - sim.now)
    k = op[1]
    if k == "send":
      c = clients[op[2]]
      if c.alive:
        sent.append((len(sent), c, op[3], 10 + op[4], sim.now))
        c.sendq.put_nowait((op[3], 10 + op[4], len(sent) - 1))
    elif k == "take": spawn(take(op[2], clients[op[3]]))
    elif k == "release": spawn(release(op[2]))
    elif k == "cut": cut_edge(sim, edges[op[2]], op[3])
    elif k == "join": spawn(join_edge(sim, switches, edges[op[2]]))
    elif k == "drop":
      c = clients[op[2]]
      if c.alive:
        sim.fault("client_crash")
        c.alive = False
        c.alive_iv.off(sim.now)
        for a in range(n_addr):
          c.own[a].off(sim.now)
          if owner.get(a) is c: owner.pop(a)
        c.link.close()
  await asyncio.sleep(GUARD + 0.5)
  raise_failures(bg)
  for c, s in zip(clients, senders):
    if s.done() and not s.cancelled() and s.exception(): raise s.exception()
    if s.done() and c.alive: raise Violation("sender-closed", f"client {c.i} lost its connection although nothing it depends on failed")

  must = 0
  seen = {}
  for c in clients:
    last = {}
    for at, address, port, data in c.got:
      if not isinstance(data, dict) or not (0 <= data.get("id", -1) < len(sent)): raise Violation("payload-changed", repr(data))
      mid, src, a, sport, st = sent[data["id"]]
      if data.get("pad") != "x" * (mid % 5) or port != sport or address != base + a: raise Violation("payload-changed", f"message {mid}: {data!r} port {port} address {address}")
      if mid in seen: raise Violation("duplicate", f"message {mid} was delivered to client {seen[mid]} and to client {c.i}")
      seen[mid] = c.i
      if a >= n_addr or not c.maybe[a].spans or not any(s <= at for s, _ in c.maybe[a].spans):
        raise Violation("misdelivered", f"message {mid} for address {a} was delivered to client {c.i}, which never owned it")
      other = next((o for o in clients if o is not c and o.own[a].covers(st - GUARD, at)), None)
      if other is not None: raise Violation("misdelivered", f"message {mid} for address {a} was delivered to client {c.i} although client {other.i} had owned the address for {GUARD} s")
      p = edge_path(edges, src.spec["sw"], c.spec["sw"]) or []
      stable = all(e.up.covers(st - GUARD, at) for e in p) and c.own[a].covers(st - GUARD, at)
      if stable:
        if last.get((src.i, a), -1) > mid: raise Violation("reordered", f"client {c.i} got message {mid} after {last[(src.i, a)]}")
        last[(src.i, a)] = mid
  for mid, src, a, port, st in sent:
    for c in clients:
      if a >= n_addr or not c.own[a].covers(st - GUARD, st + GUARD): continue
      if not c.alive_iv.covers(st - GUARD, st + GUARD) or not src.alive_iv.covers(st - GUARD, st + GUARD): continue
      p = edge_path(edges, src.spec["sw"], c.spec["sw"])
      if p is None or not all(e.up.covers(st - GUARD, st + GUARD) for e in p): continue
      must += 1
      if seen.get(mid) != c.i: raise Violation("lost", f"message {mid} from client {src.i} for address {a} never reached its owner, client {c.i}; owner and route were stable")
  sim.probe("must_deliver", must)
  sim.probe("delivered", len(seen))
  sim.states.add((len(sent), must, len(seen)))
  return { "nontrivial": must > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.3 })
