"""N01/N02 shared network workload: see DESIGN.md."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, Intervals, connect_edge, edge_path, gen_tree, make_switches
from dst.sim import Violation

ID = "N01"
GUARD = 3.0
RULE = ("seeded case = random loop-free network (1-6 switches; in-process, serialising, delayed and byte-stream links), 2-7 clients, 1-4 topics and 8-40 timed "
        "operations (publish, subscribe, unsubscribe, move provider, cut/restore link, crash client); non-trivial when at least one message had to be delivered "
        "over a route that was stable; distinct by execution fingerprint")
REAL = ["streamtasks.net (Switch, Link, serialization, helpers)", "streamtasks.client (Client, receivers, topics)", "streamtasks.connection framing on stream edges"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams / delayed links)"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
  edges = [ { "a": a, "b": b, "kind": rng.choice(["queue", "raw", "delay", "delay", "stream"]), "cost": rng.choice([1, 1, 2, 5, 50]) } for a, b in gen_tree(rng, n_sw) ]
  n_cl = rng.randint(2, 7)
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "queue", "delay"]), "rx": rng.choice(["intopic", "receiver"]) } for _ in range(n_cl) ]
  n_topics = rng.randint(1, 4)
  swarm = { k: rng.random() < p for k, p in (("faults", 0.5), ("churn", 0.8), ("clientcrash", 0.4), ("burst", 0.5)) }
  ops = []
  t = 0.0
  live_edges = { i: e for i, e in enumerate(edges) }
  n_ops = rng.randint(8, 40)
  providers = {}
  for topic in range(n_topics):
    c = rng.randrange(n_cl)
    providers[topic] = c
    ops.append([round(rng.random() * 0.5, 4), "reg", c, topic])
  for _ in range(rng.randint(1, 4)):
    ops.append([round(rng.random() * 0.5, 4), "sub", rng.randrange(n_cl), rng.randrange(n_topics)])
  t = 0.5
  for _ in range(n_ops):
    t += rng.choice([0.0, 0.001, 0.01, 0.05, 0.3, 3.2, 3.2])
    topic = rng.randrange(n_topics)
    r = rng.random()
    if r < 0.4:
      for _ in range(rng.randint(1, 5) if swarm["burst"] else 1): ops.append([round(t, 4), "pub", topic])
    elif r < 0.6: ops.append([round(t, 4), "sub", rng.randrange(n_cl), topic])
    elif r < 0.75 and swarm["churn"]: ops.append([round(t, 4), "unsub", rng.randrange(n_cl), topic])
    elif r < 0.82 and swarm["churn"]: ops.append([round(t, 4), "move", topic, rng.randrange(n_cl)])
    elif r < 0.90 and swarm["faults"] and edges: ops.append([round(t, 4), "cut", rng.randrange(len(edges)), rng.choice(["a", "b"])])
    elif r < 0.97 and swarm["faults"] and edges: ops.append([round(t, 4), "join", rng.randrange(len(edges))])
    elif swarm["clientcrash"]: ops.append([round(t, 4), "drop", rng.randrange(n_cl)])
  t += 3.5
  for topic in range(n_topics): ops.append([round(t, 4), "pub", topic])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "clients": clients, "topics": n_topics,
           "shuffle": rng.choice([0.0, 0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.002]), "stream_lat": rng.choice([0.004, 0.02]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.net import ConnectionClosedError, create_queue_connection
  from streamtasks.net.messages import TopicControlData
  from streamtasks.net.serialization import RawData
  from streamtasks.client import Client
  from streamtasks.client.receiver import TopicsReceiver
  from dst.netlab import delay_pair
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]

  class Cl: pass
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c = Cl()
    c.i, c.spec, c.alive = i, spec, True
    if spec["kind"] == "queue": c.link = await switches[spec["sw"]].add_local_connection()
    else:
      a, b = delay_pair(sim, f"c{i}", 1)
      await switches[spec["sw"]].add_link(a)
      c.link = b
    c.client = Client(c.link)
    c.client.start()
    c.subs = {}
    c.sub_iv = { t: Intervals() for t in range(cfg["topics"]) }
    c.maybe_iv = { t: Intervals() for t in range(cfg["topics"]) }
    c.reg_iv = { t: Intervals() for t in range(cfg["topics"]) }
    c.alive_iv = Intervals()
    c.alive_iv.on(sim.now)
    c.got = []
    c.lock = asyncio.Lock()
    clients.append(c)
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)
  provider = {}
  pubs = []     # (id, topic, client, time)
  t0 = sim.now
  base = 1000   # topic ids on the wire

  async def reader(c, topic, rx):
    while True:
      if c.spec["rx"] == "intopic": data = await rx.recv_data()
      else:
        tid, data = await rx.get()
        if tid != base + topic: raise Violation("wrong-topic", f"client {c.i} got topic {tid} on a subscription to {base + topic}")
        if not isinstance(data, RawData): continue
      c.got.append((sim.now, topic, data.data))

  async def publisher(c):
    # one publisher publishes in program order
    while True:
      topic, pid = await c.pubq.get()
      await c.client.send_stream_data(base + topic, RawData({ "id": pid, "blob": bytes([pid % 251]) * (pid % 7) }))

  async def do_sub(c, topic):
    async with c.lock:
      if not c.alive or topic in c.subs: return
      c.maybe_iv[topic].on(sim.now)
      if c.spec["rx"] == "intopic":
        rx = c.client.in_topic(base + topic)
        await rx.start()
        await rx.set_registered(True)
      else:
        rx = TopicsReceiver(c.client, [base + topic])
        await rx.start_recv()
      c.subs[topic] = (rx, asyncio.create_task(reader(c, topic, rx)))
      c.sub_iv[topic].on(sim.now)
  async def do_unsub(c, topic):
    async with c.lock:
      if not c.alive or topic not in c.subs: return
      rx, task = c.subs.pop(topic)
      c.sub_iv[topic].off(sim.now)
      if c.spec["rx"] == "intopic":
        await rx.set_registered(False)
        await rx.stop()
      else: await rx.stop_recv()
      c.maybe_iv[topic].off(sim.now)
      await asyncio.sleep(0)  # whatever was queued locally before the unsubscribe
      task.cancel()
  async def do_reg(c, topic):
    async with c.lock:
      if not c.alive or c.reg_iv[topic].active: return
      await c.client.register_out_topics([base + topic])
      provider[topic] = c
      c.reg_iv[topic].on(sim.now)
  async def do_unreg(c, topic):
    async with c.lock:
      if not c.alive or not c.reg_iv[topic].active: return
      c.reg_iv[topic].off(sim.now)
      if provider.get(topic) is c: provider.pop(topic)
      await c.client.unregister_out_topics([base + topic])

  bg = []
  pubtasks = []
  topic_locks = [ asyncio.Lock() for _ in range(cfg["topics"]) ]
  async def guard(coro):
    try: await coro
    except ConnectionClosedError: pass
  def spawn(coro): bg.append(asyncio.create_task(guard(coro)))

  for c in clients:
    c.pubq = asyncio.Queue()
    pubtasks.append(asyncio.create_task(guard(publisher(c))))
  for n, op in enumerate(case["ops"]):
    at = t0 + op[0]
    if at > sim.now: await asyncio.sleep(at - sim.now)
    kind = op[1]
    if kind == "sub": spawn(do_sub(clients[op[2]], op[3]))
    elif kind == "unsub": spawn(do_unsub(clients[op[2]], op[3]))
    elif kind == "reg":
      async def first(c, topic):
        async with topic_locks[topic]:
          if topic not in provider: await do_reg(c, topic)
      spawn(first(clients[op[2]], op[3]))
    elif kind == "move":
      async def mv(topic, dst):
        async with topic_locks[topic]:  # one provider at a time
          cur = provider.get(topic)
          if cur is dst: return
          if cur is not None: await do_unreg(cur, topic)
          await do_reg(dst, topic)
      spawn(mv(op[2], clients[op[3]]))
    elif kind == "pub":
      c = provider.get(op[2])
      if c is not None and c.alive:
        pid = len(pubs)
        pubs.append((pid, op[2], c, sim.now))
        c.pubq.put_nowait((op[2], pid))
    elif kind == "cut":
      e = edges[op[2]]
      if e.up.active:
        e.up.off(sim.now)
        sim.fault("link_cut")
        if e.links[2] is not None: sim.net.reset_conn(e.links[2])
        else: e.links[0 if op[3] == "a" else 1].close()
    elif kind == "join":
      e = edges[op[2]]
      if not e.up.active:
        # both ends must have noticed the break before a new link is made
        async def join(e):
          await asyncio.sleep(0.05)
          if e.up.active: return
          sim.fault("link_heal")
          e.up.on(sim.now)
          await connect_edge(sim, switches, e)
        spawn(join(e))
    elif kind == "drop":
      c = clients[op[2]]
      if c.alive:
        sim.fault("client_crash")
        c.alive = False
        now = sim.now
        c.alive_iv.off(now)
        for t in range(cfg["topics"]):
          c.sub_iv[t].off(now); c.maybe_iv[t].off(now + 0.1); c.reg_iv[t].off(now)
          if provider.get(t) is c: provider.pop(t)
        c.link.close()
  await asyncio.sleep(GUARD + 0.5)
  for b in bg:
    if b.done() and not b.cancelled() and b.exception(): raise b.exception()
    if not b.done(): raise Violation("operation-stuck", "an operation did not finish")

  # ---- oracle over the recorded history
  def path(a, b): return edge_path(edges, a, b)
  by_id = { p[0]: p for p in pubs }
  must = 0
  for c in clients:
    seen = {}
    lastper = {}
    for at, topic, data in c.got:
      if not isinstance(data, dict) or "id" not in data or data["id"] not in by_id: raise Violation("payload-changed", f"client {c.i} received {data!r}")
      pid = data["id"]
      _, ptopic, pc, pt = by_id[pid]
      if data.get("blob") != bytes([pid % 251]) * (pid % 7): raise Violation("payload-changed", f"client {c.i} message {pid}")
      if ptopic != topic: raise Violation("cross-topic", f"client {c.i} got message {pid} of topic {ptopic} on {topic}")
      if pid in seen: raise Violation("duplicate", f"client {c.i} received message {pid} of topic {topic} twice")
      seen[pid] = at
      if at < pt: raise Violation("time-travel", "")
      if not c.maybe_iv[topic].overlaps(at - 1e-3, at): raise Violation("unsubscribed-delivery", f"client {c.i} received message {pid} on topic {topic} while not subscribed")
      k = (topic, pc.i)
      if k in lastper and lastper[k] > pid:
        a = by_id[lastper[k]]
        cut = any(not e.up.covers(pt - GUARD, at + 0.001) for e in path(pc.spec["sw"], c.spec["sw"]) or [])
        if not cut: raise Violation("reordered", f"client {c.i} got {pid} after {lastper[k]} on topic {topic}")
      lastper[k] = max(lastper.get(k, -1), pid)
    for pid, topic, pc, pt in pubs:
      a, b = pt - GUARD, pt + GUARD
      if not pc.reg_iv[topic].covers(a, b) or not pc.alive_iv.covers(a, b): continue
      if not c.sub_iv[topic].covers(a, b): continue
      if c is pc: continue
      p = path(pc.spec["sw"], c.spec["sw"])
      if p is None or not all(e.up.covers(a, b) for e in p): continue
      must += 1
      if pid not in seen: raise Violation("lost", f"client {c.i} (switch {c.spec['sw']}) never received message {pid} of topic {topic} published by client {pc.i} (switch {pc.spec['sw']}) at {pt - t0:.3f}; route and subscription were stable")
  sim.probe("must_deliver", must)
  sim.probe("delivered", sum(len(c.got) for c in clients))
  sim.states.add((len(pubs), must))
  return { "nontrivial": must > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.3 })
