"""D01: addresses, topic ids and topic spaces handed out by discovery are unique, complete and stable."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, Intervals, client_link, connect_edge, cut_edge, edge_path, gen_edges, join_edge, make_switches
from dst.sim import Violation

ID = "D01"
RULE = ("seeded case = loop-free network with the real discovery worker (started early or late), 2-8 clients, 10-60 timed requests for addresses (with and without an own address), topic ids and topic spaces "
        "(register, read, translate, delete), malformed requests, requests given up midway, links cut and restored; non-trivial when at least 5 requests had to succeed; distinct by execution fingerprint")
REAL = ["streamtasks.services.discovery (DiscoveryWorker)", "streamtasks.client.discovery", "streamtasks.client.fetch/signal", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)"]
TIMEOUT = 4.0


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3, 4])
  edges = gen_edges(rng, n_sw)
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]), "at": rng.choice([0.0, 0.0, round(rng.random() * 0.5, 3)]) } for _ in range(rng.randint(2, 8)) ]
  faults = rng.random() < 0.4
  ops = []
  t = 2.0
  spaces = 0
  for _ in range(rng.randint(10, 50)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.004, 0.02, 0.3])
    ci = rng.randrange(len(clients))
    give = round(rng.random() * 0.03, 4) if rng.random() < 0.15 else None
    r = rng.random()
    if r < 0.2: ops.append([round(t, 4), "addr", ci, rng.choice([1, 1, 2, 5]), give])
    elif r < 0.3: ops.append([round(t, 4), "sigaddr", ci, rng.choice([1, 2, 5]), give])
    elif r < 0.5: ops.append([round(t, 4), "topics", ci, rng.choice([0, 1, 2, 7]), give])
    elif r < 0.62:
      ids = rng.sample(range(100), rng.randint(0, 5))
      if ids and rng.random() < 0.2: ids.append(ids[0])
      ops.append([round(t, 4), "space", ci, ids, give, spaces]); spaces += 1
    elif r < 0.72 and spaces: ops.append([round(t, 4), "getspace", ci, rng.randrange(spaces + 1), give])
    elif r < 0.82 and spaces: ops.append([round(t, 4), "translate", ci, rng.randrange(spaces + 1), give, rng.random()])
    elif r < 0.87 and spaces: ops.append([round(t, 4), "delspace", ci, rng.randrange(spaces), give])
    elif r < 0.93: ops.append([round(t, 4), "bad", ci, rng.randrange(7), None])
    elif faults and edges: ops.append([round(t, 4), rng.choice(["cut", "join", "join"]), rng.randrange(len(edges))])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "clients": clients, "disc": { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]), "at": rng.choice([0.0, 0.0, 0.3, 1.2]) },
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.002]) }, "ops": ops }


async def start_discovery(sim, switches, spec):
  from streamtasks.net import create_queue_connection
  from streamtasks.services.discovery import DiscoveryWorker
  from dst.netlab import delay_pair
  w = DiscoveryWorker()
  a, b = create_queue_connection() if spec["kind"] == "queue" else delay_pair(sim, "disc", 1)
  await asyncio.gather(w.switch.add_link(a), switches[spec["sw"]].add_link(b))
  return w, asyncio.create_task(w.run())


async def main(sim, case):
  from pydantic import ValidationError
  from streamtasks.client import Client
  from streamtasks.client.discovery import DiscoveryConstants, delete_topic_space, get_topic_space, get_topic_space_translation, register_topic_space, request_addresses, wait_for_topic_signal
  from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
  from streamtasks.client.signal import send_signal
  from streamtasks.services.constants import NetworkAddresses, NetworkTopics
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)
  t0 = sim.now
  started = {}
  async def run_disc():
    await asyncio.sleep(cfg["disc"]["at"])
    started["w"], started["task"] = await start_discovery(sim, switches, cfg["disc"])
    started["at"] = sim.now
  d_task = asyncio.create_task(run_disc())

  handed = {}   # ("a"|"t", id) -> who
  def take(kind, ids, who, count):
    ids = list(ids)
    if len(ids) != count: raise Violation("wrong-count", f"{who} asked for {count} and got {ids}")
    for i in ids:
      if i < (NetworkAddresses.COUNTER_INIT if kind == "a" else NetworkTopics.COUNTER_INIT): raise Violation("reserved-id", f"{who} was given the reserved {'address' if kind == 'a' else 'topic id'} {i}")
      if (kind, i) in handed: raise Violation("not-unique", f"{'address' if kind == 'a' else 'topic id'} {i} was given to {who} and to {handed[(kind, i)]}")
      handed[(kind, i)] = who

  clients = []
  class Cl: pass
  async def boot(c, spec):
    await asyncio.sleep(spec["at"])
    c.link = await client_link(sim, switches[spec["sw"]], spec["kind"], f"c{c.i}")
    c.client = Client(c.link)
    c.client.start()
    await wait_for_topic_signal(c.client, NetworkTopics.DISCOVERY_SIGNAL)
    addr = await c.client.request_address()
    take("a", [ addr ], f"client {c.i} (own address)", 1)
    c.extra = Client(await client_link(sim, switches[spec["sw"]], spec["kind"], f"x{c.i}")) # never gets an own address
    c.extra.start()
    c.ready = True
  boots = []
  for i, spec in enumerate(cfg["clients"]):
    c = Cl()
    c.i, c.spec, c.ready = i, spec, False
    clients.append(c)
    boots.append(asyncio.create_task(boot(c, spec)))

  spaces = {}  # n -> dict
  must = 0
  results = []
  async def request(n, op):
    nonlocal must
    kind, c, give = op[1], clients[op[2]], op[4]
    if not c.ready: return
    cl = c.client
    who = f"request {n} ({kind}) of client {c.i}"
    start = sim.now
    bad = None
    if kind == "addr": coro = request_addresses(cl, op[3])
    elif kind == "sigaddr": coro = request_addresses(c.extra, op[3])
    elif kind == "topics": coro = cl.request_topic_ids(op[3])
    elif kind == "space":
      spaces[op[5]] = { "ids": op[3], "start": start, "end": None, "id": None, "map": None, "dels": [], "reads": [] }
      coro = register_topic_space(cl, op[3])
    elif kind == "bad":
      bad = op[3]
      D = DiscoveryConstants
      if bad == 0: coro = cl.fetch(NetworkAddresses.ID_DISCOVERY, D.FD_REQUEST_TOPICS, { "count": -5 })
      elif bad == 1: coro = cl.fetch(NetworkAddresses.ID_DISCOVERY, D.FD_SD_REQUEST_ADDRESSES, { "count": -5 })
      elif bad == 2: coro = cl.fetch(NetworkAddresses.ID_DISCOVERY, D.FD_REQUEST_TOPICS, { "count": "many" })
      elif bad == 3: coro = cl.fetch(NetworkAddresses.ID_DISCOVERY, D.FD_REGISTER_TOPIC_SPACE, { "topic_ids": None })
      elif bad == 4: coro = cl.fetch(NetworkAddresses.ID_DISCOVERY, D.FD_GET_TOPIC_SPACE, "nonsense")
      elif bad == 5: coro = send_signal(cl, NetworkAddresses.ID_DISCOVERY, D.FD_SD_REQUEST_ADDRESSES, { "request_id": 7, "count": -3 })
      else: coro = send_signal(cl, NetworkAddresses.ID_DISCOVERY, D.FD_SD_REQUEST_ADDRESSES, [ None ])
      sim.fault("malformed_request")
    else:
      s = spaces.get(op[3])
      unknown = s is None or s["id"] is None
      sid = 10 ** 6 + op[3] if unknown else s["id"]
      if kind == "getspace": coro = get_topic_space(cl, sid)
      elif kind == "delspace":
        if unknown: return
        coro = delete_topic_space(cl, sid)
        rec = [ start, None ]
        s["dels"].append(rec)
      else:
        ids = [] if unknown else s["ids"]
        k = int(op[5] * (len(ids) + 1))
        tid = ids[k] if k < len(ids) else 5000 # never part of a space
        coro = get_topic_space_translation(cl, sid, tid)
    out, res = "ok", None
    try: res = await asyncio.wait_for(coro, TIMEOUT if give is None else give)
    except FetchError as e: out, res = "error", e
    except ValidationError as e: out, res = "invalid", e
    except (asyncio.TimeoutError, TimeoutError):
      out = "timeout"
      if give is not None: sim.fault("request_given_up")
    end = sim.now
    path = edge_path(edges, c.spec["sw"], cfg["disc"]["sw"])
    stable = all(e.up.covers(start - 1.0, end) for e in path)
    if out == "timeout":
      if give is None and stable: raise Violation("unanswered", f"{who} got no answer within {TIMEOUT} s; discovery and the route to it were up")
      return
    must += stable
    if kind in ("addr", "sigaddr", "topics"):
      if out != "ok": raise Violation("request-failed", f"{who} failed: {res}")
      take("t" if kind == "topics" else "a", res, who, op[3])
    elif kind == "space":
      if out != "ok": raise Violation("request-failed", f"{who} failed: {res}")
      s = spaces[op[5]]
      sid, m = res
      if any(o["id"] == sid for o in spaces.values()): raise Violation("not-unique", f"topic space id {sid} was given out twice")
      if set(m) != set(op[3]): raise Violation("space-incomplete", f"{who}: asked for {op[3]}, got a mapping for {sorted(m)}")
      take("t", m.values(), who, len(set(op[3])))
      s.update(id=sid, map=dict(m), end=end)
    elif kind == "bad":
      if out == "ok" and bad < 5: raise Violation("malformed-accepted", f"{who}: malformed request {bad} was answered with {res!r}")
    elif kind == "delspace":
      rec[1] = end
      earlier = [ d for d in s["dels"] if d is not rec and d[1] is not None and d[1] < start ]
      if out == "ok":
        rec.append("ok")
        if earlier and any(len(d) > 2 for d in earlier): raise Violation("deleted-twice", f"{who}: space {sid} had been deleted before")
      elif res.status_code is None or not [ d for d in s["dels"] if d is not rec ]: raise Violation("request-failed", f"{who} failed: {res.body}")
    else:
      gone_before = not unknown and any(d[1] is not None and d[1] < start for d in s["dels"])
      maybe_gone = unknown or any(d[0] <= end for d in s["dels"])
      missing = kind == "translate" and tid == 5000
      if out == "ok":
        if unknown or gone_before or missing: raise Violation("unknown-space-answered", f"{who}: got {res} for a space or topic that does not exist")
        want = s["map"] if kind == "getspace" else s["map"][tid]
        if res != want: raise Violation("space-changed", f"{who}: got {res}, registered was {want}")
      else:
        if not maybe_gone and not missing: raise Violation("space-lost", f"{who} failed: {res.body}; the space was registered and never deleted")
        if res.status_code != FetchErrorStatusCode.NOT_FOUND: raise Violation("wrong-error", f"{who}: {res.body}")

  tasks = []
  joins = []
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if n == 0 and not any(e.up.spans[-1][1] for e in edges):
      pass
    if op[1] == "cut": cut_edge(sim, edges[op[2]])
    elif op[1] == "join": joins.append(asyncio.create_task(join_edge(sim, switches, edges[op[2]])))
    else: tasks.append(asyncio.create_task(request(n, op)))
    for t in tasks:
      if t.done() and t.exception(): raise t.exception()
  await asyncio.sleep(TIMEOUT + 1.0)
  for t in tasks + joins + [ d_task ]:
    if not t.done(): raise Violation("request-stuck", "a request neither finished nor timed out")
    if t.exception(): raise t.exception()
  for c, b in zip(clients, boots):
    if b.done() and b.exception(): raise b.exception()
    path = edge_path(edges, c.spec["sw"], cfg["disc"]["sw"])
    if not b.done() and all(e.up.covers(t0, t0 + 2.9) for e in path) : raise Violation("client-not-started", f"client {c.i} does not get past waiting for discovery and requesting its address")
  if started["task"].done(): raise started["task"].exception() or Violation("discovery-stopped", "the discovery worker ended")
  sim.probe("must_succeed", must)
  sim.states.add((len(handed), len(spaces)))
  return { "nontrivial": must >= 5 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.2 })
