"""L01: every request gets the answer to that request, once."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import EdgeRt, client_link, connect_edge, cut_edge, edge_path, gen_edges, join_edge, make_switches, Intervals
from dst.sim import Violation

ID = "L01"
RULE = ("seeded case = loop-free network, 1-3 servers, 1-5 clients, 8-60 timed requests (echo, slow, failing, invalid, chained to another server (which may fail), no explicit answer), issued concurrently, some given up midway, "
        "while servers restart and links are cut and restored; non-trivial when at least 3 requests had to be answered; distinct by execution fingerprint")
REAL = ["streamtasks.client.fetch", "streamtasks.client (Client, Receiver)", "streamtasks.net", "streamtasks.connection framing on stream edges"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams)"]
TIMEOUT = 4.0


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3, 4])
  edges = gen_edges(rng, n_sw)
  n_srv = rng.randint(1, 3)
  servers = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay", "stream"]), "port": rng.choice([None, None, 77]) } for _ in range(n_srv) ]
  clients = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay", "stream"]), "keep": rng.random() < 0.4 } for _ in range(rng.randint(1, 5)) ]
  ops = []
  t = 0.5
  faults = rng.random() < 0.4
  for _ in range(rng.randint(8, 50)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.003, 0.01, 0.05, 0.3])
    r = rng.random()
    if r < 0.85 or not faults:
      ops.append([round(t, 4), "fetch", rng.randrange(len(clients)), rng.randrange(n_srv), rng.choice(["echo", "echo", "slow", "fail", "failserver", "invalid", "chain", "chainfail", "silent", "twice", "notfound"]),
                  round(rng.random() * 0.03, 4) if rng.random() < 0.2 else None])
    elif r < 0.9: ops.append([round(t, 4), "restart", rng.randrange(n_srv), round(rng.random() * 0.2, 4)])
    elif r < 0.94 and edges: ops.append([round(t, 4), "cut", rng.randrange(len(edges)), rng.choice(["a", "b"])])
    elif edges: ops.append([round(t, 4), "join", rng.randrange(len(edges))])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": edges, "servers": servers, "clients": clients, "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.002]) }, "ops": ops }


async def make_client(sim, switches, spec, name):
  from streamtasks.client import Client
  from dst.netlab import stream_pair
  if spec["kind"] == "stream":
    a, b, conn = await stream_pair(sim, name, 1)
    await switches[spec["sw"]].add_link(a)
    link = b
  else: link = await client_link(sim, switches[spec["sw"]], spec["kind"], name)
  c = Client(link)
  c.start()
  return c, link


async def main(sim, case):
  from pydantic import BaseModel
  from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchServer, new_fetch_body_not_found
  from streamtasks.client.receiver import TopicsReceiver
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)

  class Arg(BaseModel):
    n: int

  class Srv: pass
  servers = []
  calls = {}
  for i, spec in enumerate(cfg["servers"]):
    s = Srv()
    s.i, s.spec = i, spec
    s.client, s.link = await make_client(sim, switches, spec, f"s{i}")
    await s.client.set_address(10 + i)
    s.endpoint = 10 + i if spec["port"] is None else (10 + i, spec["port"])
    s.fs = FetchServer(s.client) if spec["port"] is None else FetchServer(s.client, port=spec["port"])
    s.up = Intervals()
    def add(s):
      def count(req):
        calls[req.body["id"]] = calls.get(req.body["id"], 0) + 1
        if req.body["srv"] != s.i: raise Violation("wrong-server", f"request {req.body} was handled by server {s.i}")
      @s.fs.route("echo")
      async def _(req): count(req); await req.respond({ "echo": req.body["id"], "by": s.i })
      @s.fs.route("slow")
      async def _(req): count(req); await asyncio.sleep(0.02); await req.respond({ "echo": req.body["id"], "by": s.i })
      @s.fs.route("fail")
      async def _(req): count(req); await req.respond_error(["custom", req.body["id"]])
      @s.fs.route("failserver")
      async def _(req): count(req); raise RuntimeError(f"failed {req.body['id']}")
      @s.fs.route("invalid")
      async def _(req): count(req); Arg.model_validate({ "n": "not a number" })
      @s.fs.route("chainfail")
      @s.fs.route("chain")
      async def _(req):
        count(req)
        nxt = req.body["next"]
        if nxt is None: return await req.respond({ "echo": req.body["id"], "by": s.i })
        r = await asyncio.wait_for(s.client.fetch(servers[nxt["srv"]].endpoint, nxt["how"], nxt), 1.0)
        await req.respond({ "echo": req.body["id"], "by": s.i, "inner": r })
      @s.fs.route("silent")
      async def _(req): count(req)
      @s.fs.route("twice")
      async def _(req): count(req); await req.respond({ "echo": req.body["id"], "by": s.i }); raise RuntimeError("after the answer")
      @s.fs.route("notfound")
      async def _(req): count(req); await req.respond_error(new_fetch_body_not_found(f"no {req.body['id']}"))
    add(s)
    s.task = asyncio.create_task(s.fs.run())
    s.up.on(sim.now)
    servers.append(s)
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c, link = await make_client(sim, switches, spec, f"c{i}")
    await c.set_address(100 + i)
    if spec["keep"]: await TopicsReceiver(c, [9], subscribe=False).start_recv()
    clients.append(c)
  await asyncio.sleep(0.4)

  results = {}
  async def fetch(n, ci, si, how, give_up):
    body = { "id": n, "srv": si }
    if how in ("chain", "chainfail"):
      nxt = next((k for k in range(len(servers)) if k != si), None) # never the server itself: it answers one request at a time
      # only upwards, so that two servers never wait for each other
      body["next"] = None if nxt is None or nxt < si else { "id": 100000 + n, "srv": nxt, "how": "echo" if how == "chain" else ("fail", "failserver", "notfound")[n % 3] }
    start = sim.now
    try:
      r = await asyncio.wait_for(clients[ci].fetch(servers[si].endpoint, how, body), give_up if give_up is not None else TIMEOUT)
      results[n] = ("ok", r, start, sim.now)
    except FetchError as e: results[n] = ("error", e, start, sim.now)
    except (asyncio.TimeoutError, TimeoutError):
      if give_up is not None: sim.fault("request_given_up")
      results[n] = ("timeout", None, start, sim.now)
  tasks = []
  restarts = []
  async def restart(s, pause):
    s.up.off(sim.now)
    sim.fault("server_restart")
    s.task.cancel()
    try: await s.task
    except asyncio.CancelledError: pass
    await asyncio.sleep(pause)
    if not s.up.active:
      s.task = asyncio.create_task(s.fs.run())
      s.up.on(sim.now + 0.005)

  t0 = sim.now - 0.5
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "fetch": tasks.append((n, op, asyncio.create_task(fetch(n, op[2], op[3], op[4], op[5]))))
    elif op[1] == "restart":
      s = servers[op[2]]
      if s.up.active: restarts.append(asyncio.create_task(restart(s, op[3])))
    elif op[1] == "cut": cut_edge(sim, edges[op[2]], op[3])
    elif op[1] == "join": restarts.append(asyncio.create_task(join_edge(sim, switches, edges[op[2]])))
  await asyncio.sleep(TIMEOUT + 1)
  for t in restarts:
    if not t.done(): raise Violation("operation-stuck", "server restart")
    if t.exception(): raise t.exception()
  for s in servers:
    if s.task.done(): raise s.task.exception() or Violation("server-stopped", f"server {s.i}")
  must = 0
  for n, op, t in tasks:
    if not t.done(): raise Violation("request-stuck", f"request {n} neither finished nor timed out")
    if t.exception(): raise t.exception()
    kind, r, start, end = results[n]
    ci, si, how, give_up = op[2:]
    if calls.get(n, 0) > 1: raise Violation("handled-twice", f"request {n} ({how}) was handled {calls[n]} times")
    chained = how in ("chain", "chainfail") and len(servers) > 1 and si == 0
    involved = [ si ] + ([ next(k for k in range(len(servers)) if k != si) ] if chained else [])
    path = []
    sw = cfg["clients"][ci]["sw"]
    for k in involved:
      path += edge_path(edges, sw, cfg["servers"][k]["sw"]) or []
      sw = cfg["servers"][k]["sw"]
    stable = all(servers[k].up.covers(start - 0.1, end) for k in involved) and all(e.up.covers(start - 1.0, end) for e in path)
    if kind == "timeout":
      if give_up is None and stable: raise Violation("unanswered", f"request {n} ({how}) from client {ci} to server {si} got no answer within {TIMEOUT} s; server and route were up (handled {calls.get(n, 0)} times)")
      continue
    if calls.get(n, 0) != 1: raise Violation("answer-without-call", f"request {n}")
    must += stable
    if how == "chainfail" and chained: # the failure of the inner request fails the handler, which answers with a general error
      if stable and (kind != "error" or r.status_code != FetchErrorStatusCode.GENERAL): raise Violation("error-lost", f"request {n} (its handler's own request failed) got {kind} {r.body if kind == 'error' else r}")
    elif how in ("echo", "slow", "twice", "chain", "chainfail"):
      if chained and not stable: continue
      if kind != "ok" or r.get("echo") != n or r.get("by") != si: raise Violation("wrong-answer", f"request {n} ({how}) to server {si} got {kind} {r.body if kind == 'error' else r}")
      if chained and (r.get("inner") or {}).get("echo") != 100000 + n: raise Violation("wrong-answer", f"request {n} (chain) got {r}")
    elif how == "silent":
      if kind != "ok" or r is not None: raise Violation("wrong-answer", f"request {n} (no explicit answer) got {kind} {r!r}")
    else:
      if kind != "error": raise Violation("error-lost", f"request {n} ({how}) should have failed, got {r!r}")
      want = { "fail": None, "failserver": FetchErrorStatusCode.GENERAL, "invalid": FetchErrorStatusCode.BAD_REQUEST, "notfound": FetchErrorStatusCode.NOT_FOUND }[how]
      if how == "fail":
        if list(r.body) != ["custom", n]: raise Violation("wrong-answer", f"request {n} failed with {r.body}")
      elif r.status_code != want: raise Violation("wrong-error", f"request {n} ({how}) failed with {r.body}")
      if how in ("failserver", "notfound") and str(n) not in str(r.body): raise Violation("wrong-answer", f"request {n} failed with {r.body}")
  sim.probe("must_answer", must)
  sim.states.add((len(tasks), must))
  return { "nontrivial": must >= 3 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.2 })
