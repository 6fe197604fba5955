"""N06: every consumer learns whether a topic is paused, early or late."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, Intervals, client_link, connect_edge, cut_edge, edge_path, gen_edges, join_edge, make_switches, raise_failures
from dst.sim import Violation

ID = "N06"
SETTLE = 3.0
RULE = ("seeded case = random loop-free network, 2-6 clients, 1-4 topics with one provider each, 10-50 timed operations (pause, resume, publish, subscribe to one or several topics at once, "
        "unsubscribe, cut, restore); non-trivial when a consumer's pause state was compared at a settle point; distinct by execution fingerprint")
REAL = ["streamtasks.net", "streamtasks.client (Client, OutTopic, InTopic)", "streamtasks.connection framing on stream edges"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams / delayed links)"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 2, 3, 4, 5])
  edges = gen_edges(rng, n_sw)
  n_topics = rng.randint(1, 4)
  n_prov = rng.randint(1, n_topics)
  n_cl = n_prov + rng.randint(1, 4)
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay", "delay"]) } for _ in range(n_cl) ]
  providers = [ i % n_prov for i in range(n_topics) ]
  ops = []
  t = 1.0
  cuts = rng.random() < 0.5
  for _ in range(rng.randint(1, 3)):
    for _ in range(rng.randint(3, 18)):
      t += rng.choice([0.0, 0.0, 0.001, 0.004, 0.01, 0.05])
      r, topic = rng.random(), rng.randrange(n_topics)
      if r < 0.35: ops.append([round(t, 4), "pause", topic, rng.random() < 0.5])
      elif r < 0.5: ops.append([round(t, 4), "pub", topic])
      elif r < 0.75: ops.append([round(t, 4), "sub", rng.randrange(n_prov, n_cl), sorted(rng.sample(range(n_topics), rng.randint(1, n_topics)))])
      elif r < 0.85: ops.append([round(t, 4), "unsub", rng.randrange(n_prov, n_cl), topic])
      elif r < 0.92 and cuts and edges: ops.append([round(t, 4), "cut", rng.randrange(len(edges)), rng.choice(["a", "b"])])
      elif cuts and edges: ops.append([round(t, 4), "join", rng.randrange(len(edges))])
    t += SETTLE
    ops.append([round(t, 4), "check"])
    for _ in range(rng.randint(0, 6)):
      t += rng.choice([0.0, 0.001, 0.01])
      if rng.random() < 0.5: ops.append([round(t, 4), "pause", rng.randrange(n_topics), rng.random() < 0.5])
      else: ops.append([round(t, 4), "pub", rng.randrange(n_topics)])
    t += SETTLE
    ops.append([round(t, 4), "check"])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "clients": clients, "topics": n_topics, "providers": providers,
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.002]), "stream_lat": rng.choice([0.004, 0.02]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.net import ConnectionClosedError, TopicRemappingLink
  from streamtasks.net.messages import TopicControlData
  from streamtasks.net.serialization import RawData
  cfg = case["cfg"]
  base = 300
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]

  class Cl: pass
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c = Cl()
    c.i, c.spec, c.lock = i, spec, asyncio.Lock()
    c.link = await client_link(sim, switches[spec["sw"]], spec["kind"], f"c{i}")
    c.map = { int(k): v for k, v in (spec.get("map") or {}).items() }   # ids the client uses -> ids on the network
    if c.map: c.link = TopicRemappingLink(c.link, c.map)
    c.tid = lambda t, inv={ v: k for k, v in c.map.items() }: inv.get(base + t, base + t)
    c.client = Client(c.link)
    c.client.start()
    c.ins, c.readers, c.got = {}, {}, {}
    c.sub_iv = { t: Intervals() for t in range(cfg["topics"]) }
    clients.append(c)
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)
  outs, prov, outq, sent = {}, {}, {}, {}
  for topic in range(cfg["topics"]):
    c = prov[topic] = clients[cfg["providers"][topic]]
    outs[topic] = c.client.out_topic(c.tid(topic))
    await outs[topic].start()
    await outs[topic].set_registered(True)
    outq[topic], sent[topic] = asyncio.Queue(), []

  async def producer(topic):
    paused = False
    while True:
      kind, v, _ = await outq[topic].get()
      if kind == "pause":
        await outs[topic].set_paused(v)
        if outs[topic].is_paused != v: raise Violation("producer-state", f"topic {topic}: set_paused({v}) left is_paused={outs[topic].is_paused}")
      else: await outs[topic].send(RawData({ "id": v, "topic": topic }))
  prods = [ asyncio.create_task(producer(t)) for t in range(cfg["topics"]) ]

  async def reader(c, topic, rx, got):
    while True:
      d = await rx.recv_data_control()
      if isinstance(d, TopicControlData):
        if rx.is_paused != d.paused: raise Violation("consumer-state", f"is_paused={rx.is_paused} right after receiving paused={d.paused}")
        got.append((sim.now, "pause", d.paused))
      else:
        if d.data["topic"] != topic: raise Violation("cross-topic", f"client {c.i} received a message of topic {d.data['topic']} on topic {topic}")
        got.append((sim.now, "pub", d.data["id"]))

  async def sub(c, topics):
    async with c.lock:
      new = [ t for t in topics if t not in c.ins ]
      if not new: return
      for t in new:
        rx = c.ins[t] = c.client.in_topic(c.tid(t))
        c.got[t] = []
        await rx.start()
        c.readers[t] = asyncio.create_task(reader(c, t, rx, c.got[t]))
      if len(new) == 1: await c.ins[new[0]].set_registered(True)
      else: await c.client.register_in_topics([ c.tid(t) for t in new ])
      for t in new: c.sub_iv[t].on(sim.now)
  async def unsub(c, t):
    async with c.lock:
      if t not in c.ins: return
      c.sub_iv[t].off(sim.now)
      rx = c.ins.pop(t)
      if rx.is_registered: await rx.set_registered(False)
      else: await c.client.unregister_in_topics([ c.tid(t) ])
      await rx.stop()
      c.readers.pop(t).cancel()

  async def guard(coro):
    try: await coro
    except ConnectionClosedError: pass
  bg = []
  def spawn(coro): bg.append(asyncio.create_task(guard(coro)))
  compared = 0
  last_cut = {}

  def path_up_since(a, b, t):
    p = edge_path(edges, a.spec["sw"], b.spec["sw"])
    return p is not None and all(e.up.covers(t, sim.now) for e in p)

  def check():
    nonlocal compared
    raise_failures(bg)
    bg.clear()
    for pt in prods:
      if pt.done(): raise pt.exception() or Violation("producer-ended", "")
    for c in clients:
      for t, rx in c.ins.items():
        if c.readers[t].done(): raise c.readers[t].exception()
        p = prov[t]
        if not path_up_since(p, c, sim.now - SETTLE + 0.2) or not c.sub_iv[t].covers(sim.now - SETTLE + 0.2, sim.now): continue
        compared += 1
        if rx.is_paused != outs[t].is_paused:
          raise Violation("pause-state", f"topic {t}: producer (client {p.i}) paused={outs[t].is_paused}, consumer (client {c.i}) sees paused={rx.is_paused} after everything settled")
    for t, out in outs.items():
      consumers = [ c for c in clients if t in c.ins ]
      stable = [ c for c in consumers if path_up_since(prov[t], c, sim.now - SETTLE + 0.2) and c.sub_iv[t].covers(sim.now - SETTLE + 0.2, sim.now) ]
      if stable and not out.is_requested: raise Violation("not-requested", f"topic {t} has the consumer {stable[0].i}, the producer is not told")
      if not consumers and out.is_requested: raise Violation("requested-without-consumer", f"topic {t}")
    sim.states.add((sum(o.is_paused for o in outs.values()), sum(len(c.ins) for c in clients)))

  t0 = sim.now
  nid = 0
  for op in case["ops"]:
    at = t0 + op[0]
    if at > sim.now: await asyncio.sleep(at - sim.now)
    k = op[1]
    if k == "pause":
      topic, v = op[2], op[3]
      cur = next((e[1] for e in reversed(sent[topic]) if e[0] == "pause"), False)
      if cur != v: sent[topic].append(("pause", v, sim.now))
      outq[topic].put_nowait(("pause", v, sim.now))
    elif k == "pub":
      nid += 1
      sent[op[2]].append(("pub", nid, sim.now))
      outq[op[2]].put_nowait(("pub", nid, sim.now))
    elif k == "sub": spawn(sub(clients[op[2]], op[3]))
    elif k == "unsub": spawn(unsub(clients[op[2]], op[3]))
    elif k == "cut": cut_edge(sim, edges[op[2]], op[3])
    elif k == "join": spawn(join_edge(sim, switches, edges[op[2]]))
    elif k == "check": check()
  await asyncio.sleep(SETTLE)
  # pause changes and data keep their order for consumers that were stable all along
  for c in clients:
    for t, rx in c.ins.items():
      ts = c.sub_iv[t].spans[-1][0]
      p = edge_path(edges, prov[t].spec["sw"], c.spec["sw"])
      if p is None or not all(e.up.active for e in p): continue
      start = max([ ts ] + [ e.up.spans[-1][0] for e in p ]) + SETTLE - 0.2
      want = [ e[:2] for e in sent[t] if e[2] >= start ]
      if not want: continue
      have = [ g[1:] for g in c.got[t] if g[0] >= start ]
      sim.probe("ordered_events", len(want))
      full = [ e[:2] for e in sent[t] ]
      if len(have) < len(want) or have != full[len(full) - len(have):]: raise Violation("event-order", f"topic {t}, client {c.i}: sent {want}, received {have}")
  sim.probe("pause_compared", compared)
  return { "nontrivial": compared > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.3 })
