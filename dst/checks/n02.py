"""N02: requested state and provider choice settle on what is reachable."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, Intervals, client_link, connect_edge, cut_edge, edge_cost, edge_path, gen_edges, join_edge, make_switches, raise_failures
from dst.sim import Violation

ID = "N02"
SETTLE = 3.0
RULE = ("seeded case = random loop-free network, 2-7 clients, up to 3 providers per topic, 10-40 timed operations (register, unregister, subscribe, unsubscribe, cut, restore, "
        "client crash) with settle points; non-trivial when at least one settle point had both a provider and a subscriber in one component; distinct by execution fingerprint")
REAL = ["streamtasks.net", "streamtasks.client (Client, OutTopic, InTopic)", "streamtasks.connection framing on stream edges"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams / delayed links)"]


def gen_rivals(rng):
  """One topic in a larger network, many rival providers, one change at a time: what is nearest changes behind switches that stay connected."""
  n_sw = rng.randint(3, 6)
  edges = gen_edges(rng, n_sw)
  n_cl = rng.randint(4, 7)
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) } for _ in range(n_cl) ]
  n_subs = rng.randint(1, 2)
  provs = list(range(n_subs, n_cl))
  ops = [ [round(0.01 * i, 4), "sub", i, 0] for i in range(n_subs) ]
  on = set(p for p in provs if rng.random() < 0.6)
  ops += [ [round(0.05 + 0.01 * i, 4), "reg", p, 0] for i, p in enumerate(rng.sample(sorted(on), len(on))) ]
  t = SETTLE
  ops.append([t, "check"])
  for _ in range(rng.randint(2, 6)):
    t += 1.0
    for p in rng.sample(provs, rng.choice([1, 1, 1, 2])):
      ops.append([round(t, 4), "unreg" if p in on else "reg", p, 0])
      on ^= { p }
      t += rng.choice([0.0, 0.0, 0.002, 0.05])
    t += SETTLE
    ops.append([round(t, 4), "check"])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "clients": clients, "topics": 1, "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": 0.0, "stream_lat": rng.choice([0.004, 0.02]) }, "ops": ops }


def gen(rng, tier="quick"):
  if rng.random() < 0.35: return gen_rivals(rng)
  n_sw = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
  edges = gen_edges(rng, n_sw)
  n_cl = rng.randint(2, 7)
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) } for _ in range(n_cl) ]
  n_topics = rng.randint(1, 3)
  ops = []
  t = 0.0
  cuts = rng.random() < 0.6
  for _ in range(rng.randint(1, 3)):
    for _ in range(rng.randint(2, 14)):
      t += rng.choice([0.0, 0.0, 0.001, 0.01, 0.05])
      r, topic = rng.random(), rng.randrange(n_topics)
      if r < 0.3: ops.append([round(t, 4), "reg", rng.randrange(n_cl), topic])
      elif r < 0.4: ops.append([round(t, 4), "unreg", rng.randrange(n_cl), topic])
      elif r < 0.7: ops.append([round(t, 4), "sub", rng.randrange(n_cl), topic])
      elif r < 0.8: ops.append([round(t, 4), "unsub", rng.randrange(n_cl), topic])
      elif r < 0.87 and cuts and edges: ops.append([round(t, 4), "cut", rng.randrange(len(edges)), rng.choice(["a", "b"])])
      elif r < 0.96 and cuts and edges: ops.append([round(t, 4), "join", rng.randrange(len(edges))])
      elif r > 0.97: ops.append([round(t, 4), "drop", rng.randrange(n_cl)])
    t += SETTLE
    ops.append([round(t, 4), "check"])
    t += 1.0
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "clients": clients, "topics": n_topics,
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.002]), "stream_lat": rng.choice([0.004, 0.02]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.net import ConnectionClosedError
  from streamtasks.net.serialization import RawData
  cfg = case["cfg"]
  base = 700
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]

  class Cl: pass
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c = Cl()
    c.i, c.spec, c.alive, c.lock = i, spec, True, asyncio.Lock()
    c.link = await client_link(sim, switches[spec["sw"]], spec["kind"], f"c{i}")
    c.client = Client(c.link)
    c.client.start()
    c.outs, c.ins, c.got, c.readers = {}, {}, [], {}
    for topic in range(cfg["topics"]):
      c.outs[topic] = c.client.out_topic(base + topic)
      await c.outs[topic].start()
    clients.append(c)
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)

  async def reader(c, topic, rx):
    while True:
      d = await rx.recv_data()
      c.got.append((topic, d.data))

  async def setreg(c, topic, on):
    async with c.lock:
      if not c.alive: return
      if on and topic in c.ins: return   # a client is either provider or consumer of a topic
      await c.outs[topic].set_registered(on)
  async def setsub(c, topic, on):
    async with c.lock:
      if not c.alive: return
      if on:
        if topic in c.ins or c.outs[topic].is_registered: return
        rx = c.client.in_topic(base + topic)
        c.ins[topic] = rx
        await rx.start()
        await rx.set_registered(True)
        c.readers[topic] = asyncio.create_task(reader(c, topic, rx))
      else:
        if topic not in c.ins: return
        rx = c.ins.pop(topic)
        c.readers.pop(topic).cancel()
        await rx.set_registered(False)
        await rx.stop()

  def dist(a, b):
    if a.spec["sw"] == b.spec["sw"]: return 0
    p = edge_path(edges, a.spec["sw"], b.spec["sw"])
    if p is None or not all(e.up.active for e in p): return None
    return sum(edge_cost(e.spec) for e in p)

  checks = 0
  bg = []
  async def guard(coro):
    try: await coro
    except ConnectionClosedError: pass
  def spawn(coro): bg.append(asyncio.create_task(guard(coro)))

  probe_id = 0
  async def settle_check():
    nonlocal checks, probe_id
    raise_failures(bg)
    bg.clear()
    alive = [ c for c in clients if c.alive ]
    for topic in range(cfg["topics"]):
      provs = [ c for c in alive if c.outs[topic].is_registered ]
      subs = [ c for c in alive if topic in c.ins ]
      nearest = {}
      for s in subs:
        ds = [ (dist(p, s), p) for p in provs ]
        ds = [ (d, p) for d, p in ds if d is not None ]
        if ds:
          m = min(d for d, _ in ds)
          nearest[s.i] = [ p for d, p in ds if d == m ]
          checks += 1
      wanted = { p.i for ps in nearest.values() for p in ps }
      for c in alive:
        if c.outs[topic].is_requested and c.i not in wanted:
          raise Violation("requested-without-consumer", f"client {c.i} believes topic {topic} is requested although no reachable consumer would use it (providers {[p.i for p in provs]}, consumers {[s.i for s in subs]})")
      for s in subs:
        ps = nearest.get(s.i)
        if ps and not any(p.outs[topic].is_requested for p in ps):
          raise Violation("not-requested", f"consumer {s.i} of topic {topic} can reach provider(s) {[p.i for p in ps]} but none is told that the topic is requested")
      # data follows the same routes
      for c in clients: c.got.clear()
      sent = {}
      for p in provs:
        if p.outs[topic].is_requested:
          probe_id += 1
          sent[probe_id] = p
          await p.outs[topic].send(RawData({ "probe": probe_id }))
      await asyncio.sleep(0.6)
      for s in subs:
        ids = [ d["probe"] for tp, d in s.got if tp == topic ]
        if len(ids) != len(set(ids)): raise Violation("duplicate", f"consumer {s.i} received a message of topic {topic} twice: {ids}")
        if any(i not in sent for i in ids): raise Violation("invented", f"consumer {s.i} received {ids}, sent {sorted(sent)}")
        ps = nearest.get(s.i)
        if ps and not any(sent[i] in ps for i in ids):
          raise Violation("provider-not-delivering", f"consumer {s.i} of topic {topic} received nothing from its nearest provider(s) {[p.i for p in ps]}")
      for c in clients:
        if c.alive and topic not in c.ins and any(tp == topic for tp, _ in c.got): raise Violation("unsubscribed-delivery", f"client {c.i} topic {topic}")
      sim.states.add((topic, len(provs), len(subs), len(nearest), len(wanted)))

  t0 = sim.now
  for op in case["ops"]:
    at = t0 + op[0]
    if at > sim.now: await asyncio.sleep(at - sim.now)
    k = op[1]
    if k == "reg": spawn(setreg(clients[op[2]], op[3], True))
    elif k == "unreg": spawn(setreg(clients[op[2]], op[3], False))
    elif k == "sub": spawn(setsub(clients[op[2]], op[3], True))
    elif k == "unsub": spawn(setsub(clients[op[2]], op[3], False))
    elif k == "cut": cut_edge(sim, edges[op[2]], op[3])
    elif k == "join": spawn(join_edge(sim, switches, edges[op[2]]))
    elif k == "drop":
      c = clients[op[2]]
      if c.alive:
        sim.fault("client_crash")
        c.alive = False
        c.link.close()
    elif k == "check": await settle_check()
  sim.probe("settled_pairs", checks)
  return { "nontrivial": checks > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.3 })
