"""L02: signals and broadcasts reach exactly those they are meant for."""
from __future__ import annotations

import asyncio

from dst.checks.d01 import start_discovery
from dst.core import execute
from dst.lab import EdgeRt, client_link, connect_edge, gen_edges, make_switches
from dst.sim import Violation

ID = "L02"
RULE = ("seeded case = loop-free network with the real discovery worker, 1-2 broadcasting servers with up to 4 namespaces, 1-6 receivers that join and leave, signal servers with working and failing handlers, "
        "10-60 timed broadcasts, joins, signals, malformed signals and requests; non-trivial when at least 3 broadcasts or signals had to arrive; distinct by execution fingerprint")
REAL = ["streamtasks.client.broadcast", "streamtasks.client.signal", "streamtasks.client.fetch", "streamtasks.services.discovery", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)"]
G = 0.4


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  n_ns = rng.randint(1, 4)
  servers = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]), "port": rng.choice([None, 222]) } for _ in range(rng.randint(1, 2)) ]
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) } for _ in range(rng.randint(1, 5)) ]
  ops = []
  t = 0.5
  for _ in range(rng.randint(10, 50)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.004, 0.02, 0.5])
    r = rng.random()
    if r < 0.45: ops.append([round(t, 4), "bc", rng.randrange(len(servers)), rng.randrange(n_ns)])
    elif r < 0.7: ops.append([round(t, 4), "join", rng.randrange(len(clients)), rng.randrange(len(servers)), sorted(rng.sample(range(n_ns), rng.randint(1, n_ns))), round(rng.choice([0.01, 0.3, 1.0, 3.0]) * (0.5 + rng.random()), 4),
                               round(rng.random() * 0.03, 4) if rng.random() < 0.15 else None])
    elif r < 0.92: ops.append([round(t, 4), "sig", rng.randrange(len(clients)), rng.randrange(len(servers)), rng.choice(["a", "a", "b", "boom", "fetcherr", "unknown"])])
    else: ops.append([round(t, 4), "bad", rng.randrange(len(clients)), rng.randrange(len(servers)), rng.randrange(3)])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "servers": servers, "clients": clients, "ns": n_ns, "disc": { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]), "at": 0 },
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.001]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.client.broadcast import BroadcastingServer, BroadcastReceiver
  from streamtasks.client.discovery import wait_for_topic_signal
  from streamtasks.client.fetch import FetchError
  from streamtasks.client.signal import SignalServer, send_signal
  from streamtasks.net.serialization import RawData
  from streamtasks.services.constants import NetworkPorts, NetworkTopics
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  for i, s in enumerate(cfg["edges"]): await connect_edge(sim, switches, EdgeRt(s, i))
  worker, d_task = await start_discovery(sim, switches, cfg["disc"])

  async def boot(spec, name):
    c = Client(await client_link(sim, switches[spec["sw"]], spec["kind"], name))
    c.start()
    await wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)
    await c.request_address()
    return c
  class Srv: pass
  servers, tasks_srv = [], []
  for i, spec in enumerate(cfg["servers"]):
    s = Srv()
    s.c = await boot(spec, f"s{i}")
    s.i, s.sigs = i, []
    s.bc = BroadcastingServer(s.c) if spec["port"] is None else BroadcastingServer(s.c, port=spec["port"])
    s.ep = s.c.address if spec["port"] is None else (s.c.address, spec["port"])
    s.sig = SignalServer(s.c)
    def routes(s):
      @s.sig.route("a")
      async def _(d): s.sigs.append(("a", d))
      @s.sig.route("b")
      async def _(d):
        await asyncio.sleep(0.003)
        s.sigs.append(("b", d))
      @s.sig.route("boom")
      async def _(d):
        s.sigs.append(("boom", d))
        raise RuntimeError("handler failed")
      @s.sig.route("fetcherr")
      async def _(d):
        s.sigs.append(("fetcherr", d))
        raise FetchError(["custom", d]) # what a failed request raises inside a handler
    routes(s)
    tasks_srv += [ asyncio.create_task(s.bc.run()), asyncio.create_task(s.sig.run()) ]
    s.sent = []   # (ns, n, from, to)
    servers.append(s)
  clients = [ await boot(spec, f"c{i}") for i, spec in enumerate(cfg["clients"]) ]
  await asyncio.sleep(0.3)

  subs, sig_sent = [], []
  async def join(n, ci, si, nss, dur, give):
    rec = { "n": n, "si": si, "ns": nss, "from": None, "to": None, "got": [] }
    s = servers[si]
    rx = BroadcastReceiver(clients[ci], [ f"ns{k}" for k in nss ], s.ep)
    async def body():
      async with rx:
        rec["from"] = sim.now
        subs.append(rec)
        async def pump():
          while True:
            ns, d = await rx.get()
            rec["got"].append((int(ns[2:]), d.data))
        p = asyncio.create_task(pump())
        try: await asyncio.sleep(dur)
        finally:
          rec["to"] = sim.now
          p.cancel()
    t = asyncio.create_task(body())
    await asyncio.wait([ t ], timeout=give if give is not None else dur + 5.0)
    if not t.done():
      if give is None: raise Violation("join-stuck", f"receiver {n} did not get through joining and leaving")
      sim.fault("join_cancelled")
      t.cancel()
      await asyncio.wait([ t ], timeout=5.0)
      if not t.done(): raise Violation("join-stuck", f"cancelled receiver {n} does not end")
      return
    if t.exception(): raise t.exception()
  async def bc(n, si, k):
    s = servers[si]
    rec = [ k, n, sim.now, None ]
    s.sent.append(rec)
    await s.bc.broadcast(f"ns{k}", RawData([ si, k, n ]))
    rec[3] = sim.now
  async def sig(n, ci, si, d):
    sig_sent.append((n, ci, si, d))
    await send_signal(clients[ci], servers[si].c.address, d, [ ci, n ])
  async def bad(ci, si, how):
    sim.fault("malformed_message")
    s = servers[si]
    if how == 0: await clients[ci].send_to((s.c.address, NetworkPorts.SIGNAL), RawData([ "not", "a", "signal" ]))
    elif how == 1: await clients[ci].send_to((s.c.address, NetworkPorts.SIGNAL), RawData({ "descriptor": 5 }))
    else: await clients[ci].send_to((s.c.address, NetworkPorts.BROADCAST if cfg["servers"][si]["port"] is None else 222), RawData("nonsense"))

  t0 = sim.now - 0.5
  lanes = {}
  tasks = []
  async def lane(q):
    while True:
      coro = await q.get()
      await coro
      q.task_done()
  lt = []
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "bc": key, coro = ("b", op[2]), bc(n, op[2], op[3])
    elif op[1] == "sig": key, coro = ("c", op[2]), sig(n, op[2], op[3], op[4])
    elif op[1] == "bad": key, coro = ("c", op[2]), bad(op[2], op[3], op[4])
    else:
      tasks.append(asyncio.create_task(join(n, *op[2:])))
      continue
    if key not in lanes: # each client issues its own messages one after another
      lanes[key] = asyncio.Queue()
      lt.append(asyncio.create_task(lane(lanes[key])))
    lanes[key].put_nowait(coro)
  await asyncio.sleep(6.0)
  for t in lt + tasks_srv:
    if t.done() and not t.cancelled(): raise t.exception() or Violation("server-stopped", "a server task ended")
  for t in tasks:
    if not t.done(): raise Violation("join-stuck", "a receiver did not finish")
    if t.exception(): raise t.exception()
  must = 0
  for s in servers:
    for ci in range(len(clients)):
      want = [ (d, [ c, n ]) for n, c, si, d in sig_sent if si == s.i and c == ci and d != "unknown" ]
      have = [ (d, list(x)) for d, x in s.sigs if x[0] == ci ]
      must += len(want)
      if want != have: raise Violation("signal", f"server {s.i}: client {ci} sent the signals {want}, handled were {have}")
    if len(s.sigs) != sum(1 for x in sig_sent if x[2] == s.i and x[3] != "unknown"): raise Violation("signal", f"server {s.i} handled signals nobody sent: {s.sigs}")
  for r in subs:
    s = servers[r["si"]]
    known = { x[1]: x for x in s.sent }
    for ns, (si, k, n) in r["got"]:
      if ns != k or si != r["si"] or k not in r["ns"]: raise Violation("misdelivered", f"receiver {r['n']} for namespaces {r['ns']} of server {r['si']} got broadcast {n} of namespace {k}, server {si}, as {ns}")
    ids = [ n for _, (_, _, n) in r["got"] ]
    if len(ids) != len(set(ids)): raise Violation("duplicate", f"receiver {r['n']} got {ids}")
    for k in r["ns"]:
      got = [ n for kk, (_, _, n) in r["got"] if kk == k ]
      if got != sorted(got): raise Violation("reordered", f"receiver {r['n']} got {got}")
      need = [ x[1] for x in s.sent if x[0] == k and x[2] >= r["from"] + G and x[3] is not None and x[3] + G <= r["to"] ]
      must += len(need)
      miss = sorted(set(need) - set(got))
      if miss: raise Violation("lost", f"receiver {r['n']} missed broadcasts {miss} of namespace {k}, server {r['si']}")
  sim.probe("must_arrive", must)
  sim.states.add((len(subs), must))
  return { "nontrivial": must >= 3 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1 })
