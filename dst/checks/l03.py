"""L03: receivers of one client come and go without disturbing each other."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, client_link, connect_edge, gen_edges, make_switches
from dst.sim import Violation

ID = "L03"
RULE = ("seeded case = a client on a loop-free network with 3-25 overlapping receivers (topic receivers, registered in-topics, one-shot signals, requests) that start, are started twice, stop and are cancelled while starting, "
        "waiting or stopping, beside a producer that publishes numbered messages on 1-4 topics all the time; non-trivial when at least two receivers overlapped a message they had to get; distinct by execution fingerprint")
REAL = ["streamtasks.client (Client, Receiver, TopicsReceiver, InTopic, OutTopic, fetch)", "streamtasks.net"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams)"]
GUARD = 0.4


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  n_topics = rng.randint(1, 4)
  ops = []
  t = 0.5
  style = rng.choice(["sparse", "dense"])
  for _ in range(rng.randint(3, 25)):
    t += rng.choice([0.0, 0.0, 0.0005, 0.002, 0.01]) if style == "dense" else rng.choice([0.0, 0.0, 0.001, 0.05, 0.6, 1.2])
    kind = rng.choice(["topics", "topics", "in", "signal", "fetch", "nested"])
    dur = round(rng.choice([0.0, 0.0005, 0.003, 0.02, 0.3, 1.5]) * (0.5 + rng.random()), 5)
    cancel = round(rng.choice([0.0, 0.0003, 0.001, 0.003, 0.02]) * rng.random(), 6) if kind != "in" and rng.random() < 0.25 else None
    ops.append([round(t, 5), kind, sorted(rng.sample(range(n_topics), rng.randint(1, n_topics))), dur, cancel])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "topics": n_topics, "sub": { "sw": rng.randrange(n_sw), "kind": "queue" if any(o[4] is not None for o in ops) else rng.choice(["queue", "delay"]) },
           "pub": { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }, "period": rng.choice([0.002, 0.01, 0.05]), "shuffle": rng.choice([0.0, 0.3, 0.8]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.client.discovery import TopicSignalReceiver
  from streamtasks.client.fetch import FetchServer
  from streamtasks.client.receiver import TopicsReceiver
  from streamtasks.net.messages import TopicControlData
  from streamtasks.net.serialization import RawData
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  for i, s in enumerate(cfg["edges"]): await connect_edge(sim, switches, EdgeRt(s, i))
  pub = Client(await client_link(sim, switches[cfg["pub"]["sw"]], cfg["pub"]["kind"], "pub"))
  sub = Client(await client_link(sim, switches[cfg["sub"]["sw"]], cfg["sub"]["kind"], "sub"))
  pub.start(); sub.start()
  await pub.set_address(1); await sub.set_address(2)
  fs = FetchServer(pub)
  @fs.route("echo")
  async def _(req): await req.respond(req.body)
  fs_task = asyncio.create_task(fs.run())
  outs = [ pub.out_topic(100 + i) for i in range(cfg["topics"]) ]
  for o in outs:
    await o.start()
    await o.set_registered(True)
  await asyncio.sleep(0.3)
  sent = { i: [] for i in range(cfg["topics"]) }
  async def publisher():
    n = 0
    while True:
      for i, o in enumerate(outs):
        if o.is_requested: # like every producer
          n += 1
          sent[i].append((n, sim.now))
          await o.send(RawData({ "n": n, "topic": i }))
      await asyncio.sleep(cfg["period"])
  ptask = asyncio.create_task(publisher())

  recs = []
  async def pump_topics(r, rx):
    while True:
      tid, d = await rx.get()
      if isinstance(d, TopicControlData): continue
      r["got"].append((tid - 100, d.data["topic"], d.data["n"], sim.now))
  async def use(r, kind, topics, dur):
    if kind in ("topics", "nested"):
      rx, nested = TopicsReceiver(sub, [ 100 + t for t in topics ]), kind == "nested"
      async with rx:
        if kind == "nested": await rx.start_recv()
        r["from"] = sim.now
        p = asyncio.create_task(pump_topics(r, rx))
        try:
          await asyncio.sleep(dur / 2)
          if kind == "nested":
            nested = False
            await rx.stop_recv()
          await asyncio.sleep(dur / 2)
          r["to"] = sim.now
        except asyncio.CancelledError:
          r["to"] = sim.now
          if kind == "nested" and nested: await rx.stop_recv()
          raise
        finally: p.cancel()
    elif kind == "in":
      t = topics[0]
      r["topics"] = [ t ]
      async with sub.in_topic(100 + t) as it, it.RegisterContext():
        r["from"] = sim.now
        async def pump():
          while True:
            d = await it.recv_data()
            r["got"].append((t, d.data["topic"], d.data["n"], sim.now))
        p = asyncio.create_task(pump())
        try: await asyncio.sleep(dur)
        finally:
          r["to"] = sim.now
          p.cancel()
    elif kind == "signal":
      await TopicSignalReceiver(sub, 100 + topics[0]).wait()
    else:
      for k in range(3):
        body = [ r["n"], k ]
        res = await sub.fetch(1, "echo", body)
        if list(res) != body: raise Violation("wrong-answer", f"request {body} got {res}")

  async def op_task(n, op):
    _, kind, topics, dur, cancel = op
    r = { "n": n, "kind": kind, "topics": topics, "from": None, "to": None, "got": [], "cancelled": False, "end": None }
    recs.append(r)
    t = asyncio.create_task(use(r, kind, topics, dur))
    if cancel is not None:
      await asyncio.wait([ t ], timeout=cancel)
      if not t.done():
        sim.fault("receiver_cancelled")
        r["cancelled"] = True
        t.cancel()
    done, _ = await asyncio.wait([ t ], timeout=dur + 5.0)
    if not done: raise Violation("receiver-stuck", f"receiver {n} ({kind}{', cancelled' if r['cancelled'] else ''}) did not finish within 5 s")
    r["end"] = sim.now
    if r["cancelled"] and not t.cancelled() and not t.exception(): raise Violation("cancel-lost", f"receiver {n} ({kind}) was cancelled and went on as if nothing had happened")
    if not t.cancelled() and t.exception(): raise t.exception()

  t0 = sim.now - 0.5
  tasks = []
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    tasks.append(asyncio.create_task(op_task(n, op)))
  res = await asyncio.gather(*tasks, return_exceptions=True)
  for e in res:
    if isinstance(e, BaseException): raise e
  await asyncio.sleep(1.0)
  for i, o in enumerate(outs):
    if o.is_requested: raise Violation("subscription-leaked", f"topic {i} is still requested 1 s after the last receiver ended")
  # a fresh receiver works after all of that
  rx = TopicsReceiver(sub, [ 100 + t for t in range(cfg["topics"]) ])
  async with rx:
    seen = set()
    try:
      async with asyncio.timeout(3.0):
        while len(seen) < cfg["topics"]: seen.add((await rx.get())[0] - 100)
    except TimeoutError: raise Violation("receive-dead", f"a new receiver gets messages of topics {sorted(seen)} only, of {cfg['topics']} topics that are being published")
  ptask.cancel()
  if fs_task.done(): raise Violation("server-stopped", "")
  must = 0
  for r in recs:
    if r["kind"] not in ("topics", "nested", "in") or r["from"] is None: continue
    for t, topic, n, at in r["got"]:
      if t != topic: raise Violation("cross-topic", f"receiver {r['n']} got message {n} of topic {topic} as topic {t}")
      if t not in r["topics"]: raise Violation("cross-topic", f"receiver {r['n']} for topics {r['topics']} got a message of topic {t}")
    for t in r["topics"]:
      got = [ n for tt, _, n, _ in r["got"] if tt == t ]
      if len(got) != len(set(got)): raise Violation("duplicate", f"receiver {r['n']} topic {t}: {got}")
      if got != sorted(got): raise Violation("reordered", f"receiver {r['n']} topic {t}: {got}")
      need = [ n for n, at in sent[t] if r["from"] + GUARD <= at and at + GUARD <= (r["to"] or r["from"]) ]
      must += len(need)
      miss = sorted(set(need) - set(got))
      if miss: raise Violation("lost", f"receiver {r['n']} ({r['kind']}) topic {t}: messages {miss[:10]} were published while it was receiving and did not arrive")
      # the topic must have been requested while the receiver was there
      if r["to"] is not None and r["to"] - r["from"] > 2 * GUARD + 0.2 and not need: raise Violation("not-requested", f"receiver {r['n']} topic {t}: the producer was not asked to publish")
  sim.probe("must_arrive", must)
  sim.states.add((len(recs), must))
  return { "nontrivial": must >= 2 }


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"].get("shuffle", 0) })
