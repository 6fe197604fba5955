"""N04: a link that fails takes down itself and nothing else."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, client_link, connect_edge, gen_edges, make_switches
from dst.sim import Violation

ID = "N04"
RULE = ("seeded case = 1-3 connected switches with a steady stream of healthy traffic, and 1-5 peers on faulty links that subscribe, provide (cheaper than the healthy provider) and own addresses, then fail while "
        "receiving, while being sent to, by garbage, or by closing, singly or together; non-trivial when at least one link failed while healthy traffic flowed; distinct by execution fingerprint")
REAL = ["streamtasks.net (Switch, Link, LinkManager)", "streamtasks.client", "streamtasks.connection (RawConnectionLink) on stream peers"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams)", "the failing peers"]
SETTLE = 2.0


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  edges = gen_edges(rng, n_sw, kinds=("queue", "raw", "delay"))
  n_topics = rng.randint(1, 3)
  topics = [ { "prov": rng.randrange(n_sw), "subs": [ rng.randrange(n_sw) for _ in range(rng.randint(0, 2)) ] } for _ in range(n_topics) ]
  peers = []
  for i in range(rng.randint(1, 5)):
    peers.append({ "sw": rng.randrange(n_sw), "kind": rng.choice(["script", "script", "stream", "queue"]), "in": sorted(rng.sample(range(n_topics), rng.randint(0, n_topics))),
                   "out": sorted(rng.sample(range(n_topics), rng.choice([0, 0, 1]))), "own": rng.choice([0, 0, 1, 2, 3]), "early": rng.random() < 0.5 })
  ops = []
  t = 1.0
  pending = list(range(len(peers)))
  rng.shuffle(pending)
  for _ in range(rng.randint(6, 40)):
    t += rng.choice([0.0, 0.0, 0.002, 0.02, 0.2])
    r = rng.random()
    if r < 0.2 and pending: ops.append([round(t, 4), "fail", pending.pop(), rng.choice(["recv", "recv", "send", "close", "garbage", "both"]), rng.choice(["closed", "runtime", "key", "os", "eof", "value"])])
    elif r < 0.85: ops.append([round(t, 4), "pub", rng.randrange(n_topics)])
    else: ops.append([round(t, 4), "addr", rng.randrange(len(peers) + 1)])
  for p in pending: ops.append([round(t + rng.random() * 0.1, 4), "fail", p, rng.choice(["recv", "send", "close"]), "closed"])
  ops.sort(key=lambda o: o[0])
  for _ in range(3): ops.append([round(t + 0.2, 4), "pub", rng.randrange(n_topics)])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "topics": topics, "peers": peers, "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": 0.0 }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.client.receiver import Receiver
  from streamtasks.connection import RawConnectionLink, RawStreamConnection
  from streamtasks.net import ConnectionClosedError, Link
  from streamtasks.net.messages import AddressedMessage, AddressesChangedMessage, InTopicsChangedMessage, OutTopicsChangedMessage, PricedId
  from streamtasks.net.serialization import RawData, serialize_message
  from dst.simnet import raw_pair
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]
  base = 100
  excs = { "closed": lambda: ConnectionClosedError(), "runtime": lambda: RuntimeError("boom"), "key": lambda: KeyError("_id"), "os": lambda: OSError(5, "I/O error"), "eof": lambda: EOFError(), "value": lambda: ValueError("bad frame") }

  class ScriptLink(Link):
    """The switch's end of a connection to a peer the harness plays."""
    def __init__(self):
      super().__init__()
      self.q = asyncio.Queue()
      self.fail_send = False
      self.rng = sim.rng("script", id_)
      self.sent = []
    async def _send(self, message):
      if self.rng.random() < 0.5: await asyncio.sleep(self.rng.random() * 0.001)
      if self.fail_send: raise ConnectionClosedError()
      self.sent.append(message)
    async def _recv(self):
      m = await self.q.get()
      if isinstance(m, BaseException): raise m
      return m

  class Box(Receiver):
    def __init__(self, c):
      super().__init__(c)
      self.got = []
    def on_message(self, m):
      if isinstance(m, AddressedMessage): self.got.append(m.data.data)

  id_ = 0
  def own(i, spec): return [ 60 + 10 * k + i for k in range(int(spec["own"])) ]
  async def attach(i, spec):
    nonlocal id_
    id_ = i
    p = dict(spec=spec, failed=False)
    hello = []
    if spec["in"]: hello.append(InTopicsChangedMessage(set(base + t for t in spec["in"]), set()))
    # the cheaper provider: the healthy one must take over when it is gone
    if spec["out"]: hello.append(OutTopicsChangedMessage(set(PricedId(base + t, 0) for t in spec["out"]), set()))
    if spec["own"]: hello.append(AddressesChangedMessage(set(PricedId(a, 0) for a in own(i, spec)), set()))
    if spec["kind"] == "script":
      p["link"] = ScriptLink()
      await switches[spec["sw"]].add_link(p["link"])
      for m in hello: p["link"].q.put_nowait(m)
    elif spec["kind"] == "stream":
      (ra, wa), (rb, wb), p["conn"] = raw_pair(sim, f"peer{i}")
      p["link"] = RawConnectionLink(RawStreamConnection(ra, wa), 1)
      p["far"] = RawStreamConnection(rb, wb)
      p["writer"] = wb
      async def drain(c):
        try:
          while True: await c.recv()
        except ConnectionClosedError: pass
      p["drain"] = asyncio.create_task(drain(p["far"]))
      await switches[spec["sw"]].add_link(p["link"])
      for m in hello: await p["far"].send(serialize_message(m))
    else:
      p["far"] = await switches[spec["sw"]].add_local_connection()
      p["link"] = None
      for m in hello: await p["far"].send(m)
    peers[i] = p

  # whoever is attached before the healthy side is also told first
  peers = {}
  for i, spec in enumerate(cfg["peers"]):
    if spec.get("early"): await attach(i, spec)
  for e in edges: await connect_edge(sim, switches, e)

  # healthy side
  async def mk(sw, name):
    link = await client_link(sim, switches[sw], "queue", name)
    c = Client(link)
    c.start()
    return c, link
  outs, subs, links = [], [], []
  sent = { t: [] for t in range(len(cfg["topics"])) }
  async def reader(rx, got):
    while True: got.append((await rx.recv_data()).data["id"])
  readers = []
  for t, spec in enumerate(cfg["topics"]):
    c, link = await mk(spec["prov"], f"p{t}")
    links.append(("provider", t, link))
    o = c.out_topic(base + t)
    await o.start()
    await o.set_registered(True)
    outs.append(o)
    for k, sw in enumerate(spec["subs"]):
      c2, link2 = await mk(sw, f"s{t}.{k}")
      links.append(("consumer", t, link2))
      rx = c2.in_topic(base + t)
      await rx.start()
      await rx.set_registered(True)
      got = []
      readers.append(asyncio.create_task(reader(rx, got)))
      subs.append((t, got))
  ha, halink = await mk(0, "addr")
  links.append(("addressed", 0, halink))
  await ha.set_address(50)
  hbox = Box(ha)
  await hbox.start_recv()
  sender, slink = await mk(len(switches) - 1, "sender")
  links.append(("sender", 0, slink))

  for i, spec in enumerate(cfg["peers"]):
    if not spec.get("early"): await attach(i, spec)
  # an onlooker at each switch sees what is announced as reachable
  onlookers = []
  async def look(link):
    while True: await link.recv()
  for sw in switches:
    link = await sw.add_local_connection()
    onlookers.append((link, asyncio.create_task(look(link))))
  await asyncio.sleep(0.8)

  t0 = sim.now - 1.0
  nid = failures = aid = 0
  addr_sent = []
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "pub":
      nid += 1
      sent[op[2]].append(nid)
      await outs[op[2]].send(RawData({ "id": nid }))
    elif op[1] == "addr":
      aid += 1
      dst = 50 if op[2] == 0 else 60 + op[2] - 1
      await sender.send_to((dst, 3), RawData({ "a": aid }))
      if dst == 50: addr_sent.append(aid)
    else:
      p = peers[op[2]]
      if p["failed"]: continue
      p["failed"] = True
      failures += 1
      mode, exc, kind = op[3], excs[op[4]], p["spec"]["kind"]
      sim.fault(f"link_{mode}_{kind}")
      if kind == "script":
        if mode == "close": p["link"].close()
        if mode in ("send", "both"): p["link"].fail_send = True
        if mode in ("recv", "both"): p["link"].q.put_nowait(exc())
        if mode == "garbage": p["link"].q.put_nowait(exc() if op[4] != "closed" else ValueError("garbage"))
        if mode == "send": # nothing may be sent to it for a long time; the peer hangs up eventually
          async def later(p):
            await asyncio.sleep(0.5)
            p["link"].q.put_nowait(ConnectionClosedError())
          asyncio.create_task(later(p))
      elif kind == "stream":
        if mode in ("recv", "both"): sim.net.reset_conn(p["conn"])
        elif mode == "garbage":
          g = sim.rng("garbage", op[2])
          junk = bytes(g.randrange(256) for _ in range(g.randint(1, 60)))
          await p["far"].send(g.choice([ junk, b"\x80", b"\x81\xa3_id\x63", b"\xc0", b"\x83\xa3_id\x03\xa3add\xc0\xa6remove\xc0", b"" ]))
        elif mode == "send": p["writer"].close()
        else: p["link"].close()
      else: p["far"].close()
  await asyncio.sleep(SETTLE)
  for r in readers:
    if r.done(): raise r.exception()
  for what, t, link in links:
    if link.closed: raise Violation("bystander-disconnected", f"the healthy {what} of topic {t} lost its connection")
  for a, (t, got) in enumerate(subs):
    if any(t in p["spec"]["out"] for p in peers.values()): # while the peer was the nearest provider, the consumer used that one
      if got != sorted(set(got)) or not set(got) <= set(sent[t]): raise Violation("bystander-traffic", f"topic {t}: published {sent[t]}, consumer received {got}")
    elif got != sent[t]: raise Violation("bystander-traffic", f"topic {t}: published {sent[t]}, consumer received {got}")
  if [ d["a"] for d in hbox.got ] != addr_sent: raise Violation("bystander-traffic", f"addressed messages sent {addr_sent}, received {[ d['a'] for d in hbox.got ]}")
  for i, p in peers.items():
    if p["failed"] and p["link"] is not None and not p["link"].closed: raise Violation("failed-link-kept", f"the failed link of peer {i} ({p['spec']['kind']}) is still open")
  alive = [ p for p in peers.values() if not p["failed"] ]
  for k, (link, task) in enumerate(onlookers):
    if link.closed or task.done(): raise Violation("bystander-disconnected", f"the onlooker at switch {k} lost its connection")
    for i, p in peers.items():
      if not p["failed"]: continue
      for a in own(i, p["spec"]):
        if a in link.addresses: raise Violation("not-withdrawn", f"address {a} of failed peer {i} is still announced at switch {k}")
    # what others still provide stays announced
    for t in range(len(cfg["topics"])):
      if base + t not in link.out_topics: raise Violation("bystander-withdrawn", f"topic {t} has a provider that is not announced at switch {k} any more")
    for a in [ 50 ] + [ a for i, p in peers.items() if not p["failed"] for a in own(i, p["spec"]) ]:
      if a not in link.addresses: raise Violation("bystander-withdrawn", f"address {a} is owned but not announced at switch {k} any more")
  for t, spec in enumerate(cfg["topics"]):
    wanted = bool(spec["subs"]) or any(t in p["spec"]["in"] for p in alive)
    shadowed = any(t in p["spec"]["out"] for p in alive)
    if wanted and not shadowed and not outs[t].is_requested: raise Violation("no-takeover", f"topic {t} has consumers, its remaining provider is not requested")
    if not wanted and outs[t].is_requested: raise Violation("dead-consumer", f"topic {t} is still requested although its only consumers are gone")
    if not shadowed:
      nid += 1
      await outs[t].send(RawData({ "id": nid }))
      await asyncio.sleep(0.3)
      for t2, got in subs:
        if t2 == t and (not got or got[-1] != nid): raise Violation("no-takeover", f"topic {t}: the remaining provider's messages do not reach the consumer")
  # the addresses of failed peers can be taken over at once
  for i, p in peers.items():
    if p["failed"] and p["spec"]["own"]:
      before = len(hbox.got)
      addr = own(i, p["spec"])[-1]
      await ha.set_address(addr)
      await asyncio.sleep(0.3)
      await sender.send_to((addr, 3), RawData({ "a": -1 }))
      await asyncio.sleep(0.3)
      if len(hbox.got) != before + 1: raise Violation("dead-address", f"a message to the address of failed peer {i} does not reach its new owner")
  sim.states.add((failures, len(peers), len(switches)))
  return { "nontrivial": failures > 0 and (sum(len(v) for v in sent.values()) > 0) }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0) })
