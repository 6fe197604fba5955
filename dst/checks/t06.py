"""T06: data flows along the wires of a running deployment and through named topics, and nowhere else."""
from __future__ import annotations

import asyncio
import copy
import uuid

from dst.core import execute
from dst.lab import EdgeRt, Intervals, cut_edge, gen_edges, join_edge, make_switches, connect_edge
from dst.sim import Violation
from dst.tasklab import attach, boot_client, settle_call
from dst.weblab import Ws, http, scratch_dir

ID = "T06"
RULE = ("seeded case = loop-free network, 1-3 deployments with overlapping local topic ids made of sources, relays, sinks (scripted) and real named inputs and outputs on 1-3 hosts, users that schedule, start, stop and "
        "restart them and watch topics over websockets, sources that pause, named topics that are edited or deleted, links that break and heal; non-trivial when a sink had to get a message; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.namedinput", "streamtasks.system.tasks.namedoutput", "streamtasks.system.named_topic_manager (NamedTopicManager)", "streamtasks.system.task_web (TaskWebBackend, topic websockets)",
        "streamtasks.system.task (TaskManager, TaskHost)", "streamtasks.client", "streamtasks.services.discovery (topic spaces)", "streamtasks.asgi", "streamtasks.asgiserver", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "sources, relays and sinks (scripted tasks on a real TaskHost)", "the browser (an ASGI caller on the other side of the network)"]
NAMES = ["alpha", "b\u00e9ta"]
GRACE, LATE = 2.0, 1.5


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 2, 2, 3, 4])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }
  n_dep, n_hosts = rng.choice([1, 2, 2, 3]), rng.randint(1, 3)
  cuts = n_sw > 1 and rng.random() < 0.25
  deps = []
  for d in range(n_dep):
    tasks, topics = [], []
    pool = rng.sample(range(1001, 1009), 8) # the ids an editor gives are far above those of the system
    level = {} # a topic may feed names from its level on, so that names never form a loop
    def new_topic(lv):
      t = pool.pop()
      topics.append(t)
      level[t] = lv
      return t
    for _ in range(rng.choice([0, 1, 1, 2]) if d else rng.choice([1, 1, 2])): tasks.append({ "kind": "src", "out": new_topic(0), "every": round(rng.choice([0.1, 0.25, 0.6]) * (0.6 + rng.random() * 0.8), 3) })
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      k = rng.choice(["relay", "nout", "nout", "nin", "nin"])
      if k == "nin":
        nm = rng.randrange(len(NAMES))
        if pool: tasks.append({ "kind": "nin", "name": nm, "out": new_topic(nm + 1) })
      elif topics:
        src = rng.choice(topics)
        if k == "relay" and pool: tasks.append({ "kind": "relay", "in": src, "out": new_topic(level[src]) })
        elif k == "nout" and level[src] < len(NAMES): tasks.append({ "kind": "nout", "in": src, "name": rng.randrange(level[src], len(NAMES)) })
    for _ in range(rng.choice([1, 1, 2, 3])):
      if topics: tasks.append({ "kind": "sink", "ins": rng.sample(topics, min(len(topics), rng.choice([1, 1, 2]))) })
    if not tasks: tasks.append({ "kind": "src", "out": new_topic(0), "every": 0.3 })
    rng.shuffle(tasks)
    for t in tasks: t["host"] = rng.randrange(n_hosts)
    deps.append(tasks)
  ops, t = [], 2.0
  for d in range(n_dep):
    ops.append([round(t, 4), "up", d])
    t += rng.choice([0.0, 0.0, 0.3, 3.0])
  for _ in range(rng.randint(3, 14)):
    t += rng.choice([0.0, 0.01, 0.3, 1.0, 3.0, 5.0])
    d, r = rng.randrange(n_dep), rng.random()
    if r < 0.2: op = ["up", d]
    elif r < 0.35: op = ["down", d]
    elif r < 0.5: op = ["restart", d]
    elif r < 0.7: op = ["pause", d, rng.random(), rng.random() < 0.6]
    elif r < 0.8 and not cuts: op = ["watch", d, rng.random()]
    elif r < 0.85 and not cuts: op = ["watchname", rng.randrange(len(NAMES))]
    elif r < 0.88 and not cuts: op = ["unwatch", rng.random()]
    elif r < 0.92: op = ["name", rng.choice(["put", "del"]), rng.randrange(len(NAMES))]
    elif cuts: op = ["cut", rng.random(), round(rng.choice([0.05, 0.5, 3.0]) * (0.5 + rng.random()), 3)]
    else:
      t += 4.0
      op = ["settle"]
    ops.append([round(t, 4), *op])
  ops.append([round(t + 4.0, 4), "settle"])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "hosts": [ { **place(), "kind": "queue" } for _ in range(n_hosts) ], "nin": { **place(), "kind": "queue" }, "nout": { **place(), "kind": "queue" },
           "user": place(), "tm": place(), "web": place(), "names": { **place(), "kind": "queue" }, "disc": { **place(), "at": 0 }, "deps": deps, "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.0005]) }, "ops": ops }


def paths_to(deps, d, topic, seen=()):
  """Every way data can take to a topic of a deployment: [((d, index of the source), frozenset of deployments, whether it stays inside)]."""
  out = []
  for i, t in enumerate(deps[d]):
    if t.get("out") != topic: continue
    if t["kind"] == "src": out.append(((d, i), frozenset([ d ]), True))
    elif t["kind"] == "relay": out += [ (s, ds | { d }, ins) for s, ds, ins in paths_to(deps, d, t["in"]) ]
    elif t["kind"] == "nin": out += [ (s, ds | { d }, False) for s, ds, ins in paths_to_name(deps, t["name"]) ]
  return out


def paths_to_name(deps, name):
  return [ p for d, tasks in enumerate(deps) for t in tasks if t["kind"] == "nout" and t["name"] == name for p in paths_to(deps, d, t["in"]) ]


def n_providers(deps, name): return sum(1 for tasks in deps for t in tasks if t["kind"] == "nout" and t["name"] == name)


def single_chain(deps, d, topic):
  """Whether every topic on the way to this one has one provider."""
  for t in deps[d]:
    if t.get("out") != topic: continue
    if t["kind"] == "src": return True
    if t["kind"] == "relay": return single_chain(deps, d, t["in"])
    if n_providers(deps, t["name"]) != 1: return False
    dd, o = next((dd, o) for dd, tasks in enumerate(deps) for o in tasks if o["kind"] == "nout" and o["name"] == t["name"])
    return single_chain(deps, dd, o["in"])
  return False


ODD = [ [], {}, [[1, 2], [3, 4]], ["ab", "cd"], { "a": { "b": [1, None, True] } }, b"\x01\xff", [b"ab"], float("nan"), [float("inf")], { "c": float("-inf") }, "NaN", 2**60, -1.5, None, "ä\n", "" ]


def json_of(v):
  """how the topic viewer shows a payload"""
  if isinstance(v, float) and (v != v or abs(v) == float("inf")): return "NaN" if v != v else "Infinity" if v > 0 else "-Infinity"
  if isinstance(v, bytes): return v.hex()
  if isinstance(v, list): return [ json_of(x) for x in v ]
  if isinstance(v, dict): return { k: json_of(x) for k, x in v.items() }
  return v


def make_host(sim, name, recs):
  from streamtasks.net.messages import TopicControlData
  from streamtasks.net.serialization import RawData
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.task import Task, TaskHost

  class FlowTask(Task):
    def __init__(self, client, rec):
      super().__init__(client)
      self.rec = rec
    async def run(self):
      rec, c = self.rec, self.rec.config
      try:
        if c["kind"] == "src": await self.run_src(rec, c)
        elif c["kind"] == "relay": await self.run_relay(rec, c)
        else: await self.run_sink(rec, c)
      finally: rec.ended = sim.now
    async def run_src(self, rec, c):
      rec.topic = self.client.out_topic(c["out"])
      self.client.start()
      async with rec.topic, rec.topic.RegisterContext():
        i = 0
        while True:
          await asyncio.sleep(c["every"])
          rec.sent.append(sim.now)
          await rec.topic.send(RawData({ "n": c["n"], "r": rec.no, "i": i, "x": "x" * (i * 7 % 40), "z": copy.deepcopy(ODD[i % len(ODD)]) }))
          i += 1
    async def run_relay(self, rec, c):
      a, b = self.client.in_topic(c["in"]), self.client.out_topic(c["out"])
      self.client.start()
      async with a, a.RegisterContext(), b, b.RegisterContext():
        while True:
          data = await a.recv_data_control()
          if isinstance(data, TopicControlData): await b.set_paused(data.paused)
          else: await b.send(data)
    async def run_sink(self, rec, c):
      self.client.start()
      await asyncio.gather(*(self.run_input(rec, t) for t in c["ins"]))
    async def run_input(self, rec, topic):
      a = self.client.in_topic(topic)
      rec.ins[topic] = a
      async with a, a.RegisterContext():
        while True:
          data = await a.recv_data()
          rec.got.append((sim.now, topic, data.data))

  class Rec:
    def __init__(self, config, space):
      self.config, self.space, self.no, self.sent, self.got, self.ins, self.topic, self.ended = config, space, len(recs), [], [], {}, None, None
      recs.append(self)

  class FlowHost(TaskHost):
    @property
    def metadata(self): return { "name": name }
    async def create_task(self, config, topic_space_id): return FlowTask(await self.create_client(topic_space_id), Rec(config, topic_space_id))

  host = FlowHost(register_endpoits=[ NetworkAddressNames.TASK_MANAGER ])
  host.id = name
  return host


async def main(sim, case):
  from dst.checks.d01 import start_discovery
  from streamtasks.asgi import ASGIProxyApp
  from streamtasks.client.discovery import wait_for_address_name
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.named_topic_manager import NamedTopicManager
  from streamtasks.system.task import TaskManager
  from streamtasks.system.task_web import TaskWebBackend
  from streamtasks.system.tasks.namedinput import NamedInputTaskHost
  from streamtasks.system.tasks.namedoutput import NamedOutputTaskHost
  cfg = case["cfg"]
  deps = cfg["deps"]
  switches = make_switches(sim, cfg)
  edges = [ EdgeRt(s, i) for i, s in enumerate(cfg["edges"]) ]
  for e in edges:
    await connect_edge(sim, switches, e)
    e.up.on(sim.now)
  _, d_task = await start_discovery(sim, switches, cfg["disc"])
  probe = await boot_client(sim, switches, { "sw": cfg["switches"] - 1, "kind": "queue" }, "probe")
  await asyncio.sleep(0.3)
  recs, services = [], [ d_task ]
  async def serve(worker, spec, name):
    await attach(sim, switches, worker, spec, name)
    async def later():
      await asyncio.sleep(0.2)
      await worker.run()
    services.append(asyncio.create_task(later()))
    return worker
  await serve(TaskManager(), cfg["tm"], "tm")
  await serve(TaskWebBackend(), cfg["web"], "web")
  await serve(NamedTopicManager(), cfg["names"], "names")
  hosts = [ await serve(make_host(sim, f"host{i}", recs), s, f"host{i}") for i, s in enumerate(cfg["hosts"]) ]
  for cls, key in ((NamedInputTaskHost, "nin"), (NamedOutputTaskHost, "nout")):
    h = cls(register_endpoits=[ NetworkAddressNames.TASK_MANAGER ])
    h.id = key
    hosts.append(await serve(h, cfg[key], key))
  for n in (NetworkAddressNames.TASK_MANAGER_WEB, NetworkAddressNames.NAMED_TOPIC_MANAGER): await wait_for_address_name(probe, n)
  user = await boot_client(sim, switches, cfg["user"], "user")
  await wait_for_address_name(user, NetworkAddressNames.TASK_MANAGER_WEB)
  app = ASGIProxyApp(user, NetworkAddressNames.TASK_MANAGER_WEB)
  await asyncio.sleep(0.5)
  if not all(h.ready.is_set() for h in hosts): raise Violation("host-stuck", "a task host is not ready after half a second")

  dep_ids = [ str(uuid.UUID(int=0xd0000000000040008000000000000000 + i)) for i in range(len(deps)) ]
  async def ask(method, path, body=None):
    st, out = await http(app, method, path, body, limit=60.0)
    if st != 200: raise Violation("refused", f"{method} {path} was answered with {st}")
    return out
  for d, tasks in enumerate(deps):
    await ask("POST", "/api/deployment", { "id": dep_ids[d], "label": f"d{d}" })
    for i, t in enumerate(tasks):
      host = f"host{t['host']}" if t["kind"] in ("src", "relay", "sink") else t["kind"]
      ins = [ t["in"] ] if "in" in t else t.get("ins", [])
      config = { "name": NAMES[t["name"]], "out_topic": t["out"] } if t["kind"] == "nin" else { "name": NAMES[t["name"]], "metadata": { "d": d }, "in_topic": t["in"] } if t["kind"] == "nout" else { **t, "n": [ d, i ] }
      await ask("PUT", "/api/task", { "id": str(uuid.UUID(int=0x70000000000040008000000000000000 + d * 100 + i)), "deployment_id": dep_ids[d], "task_host_id": host, "label": "x", "config": config, "frontend_config": {},
                                      "inputs": [ { "topic_id": x, "label": "i" } for x in ins ], "outputs": [ { "topic_id": t["out"], "label": "o" } ] if "out" in t else [] })

  class D: pass
  ds = []
  for d in range(len(deps)):
    x = D()
    x.up, x.lock, x.space, x.runs = Intervals(), asyncio.Lock(), None, [] # runs: [asked to start, started, asked to stop, stopped, space]
    ds.append(x)
  calm = Intervals() # the network is whole
  calm.on(sim.now)
  async def tasks_of(d): return await ask("GET", f"/api/deployment/{dep_ids[d]}/tasks")
  async def start(d):
    x = ds[d]
    if x.up.active: return
    run = [ sim.now, None, None, None, None ]
    x.runs.append(run)
    await ask("POST", f"/api/deployment/{dep_ids[d]}/schedule")
    run[4] = x.space = (await tasks_of(d))[0]["task_instance"]["topic_space_id"]
    await ask("POST", f"/api/deployment/{dep_ids[d]}/start")
    run[1] = sim.now
    x.up.on(sim.now)
  async def stop(d):
    x = ds[d]
    if not x.up.active: return
    run = x.runs[-1]
    run[2] = sim.now
    x.up.off(sim.now)
    await ask("POST", f"/api/deployment/{dep_ids[d]}/stop")
    run[3] = sim.now
    here = [ r for r in recs if r.space == run[4] and r.ended is None ]
    if here: raise Violation("task-left", f"deployment {d} is stopped, {[ r.config for r in here ]} still run")
  async def change(d, want):
    async with ds[d].lock:
      if want != "up": await stop(d)
      if want != "down": await start(d)
  viewers = []
  class V: pass
  async def watch(d, pick):
    x = ds[d]
    async with x.lock:
      topics = sorted(t["out"] for t in deps[d] if "out" in t)
      if not x.up.active or not topics: return
      v = V()
      v.topic = topics[int(pick * len(topics))]
      v.paths, v.run, v.d = paths_to(deps, d, v.topic), len(x.runs) - 1, d
      v.ws = Ws(app, f"/topic/{x.space}/{v.topic}")
      v.at, v.until = sim.now, None
      viewers.append(v)
  async def watch_name(name):
    body = await user.fetch(NetworkAddressNames.NAMED_TOPIC_MANAGER, "resolve_named_topic", { "name": NAMES[name] })
    v = V()
    v.topic, v.paths, v.run, v.d, v.at, v.until = NAMES[name], paths_to_name(deps, name), None, None, sim.now, None
    v.ws = Ws(app, f"/topic/{body['topic']}")
    viewers.append(v)

  def run_of(d, space): return next(k for k, r in enumerate(ds[d].runs) if r[4] == space)
  stats = { "must": 0, "got": 0, "viewer": 0 }
  def check_messages(what, got, paths, present, own, end, shown=False):
    """got: [(time, data)]; paths: ways data may come; own: (d, run) it belongs to; present: when it was there."""
    seen, last = {}, {}
    for t, m in got:
      key = (tuple(m["n"]), m["r"], m["i"])
      ways = [ p for p in paths if p[0] == key[0] ]
      src = recs[m["r"]]
      if not ways: raise Violation("crossed", f"{what} got {m}, there is no way from that source to it")
      if tuple(src.config["n"]) != key[0] or m["i"] >= len(src.sent) or m["x"] != "x" * (m["i"] * 7 % 40) or repr(m["z"]) != repr((json_of if shown else (lambda v: v))(ODD[m["i"] % len(ODD)])): raise Violation("altered", f"{what} got {m}, which was never sent")
      if own is not None and own[0] == key[0][0] and all(p[2] for p in ways) and run_of(own[0], src.space) != own[1]: raise Violation("wrong-run", f"{what} got {m} of another run of its deployment")
      seen[key] = seen.get(key, 0) + 1
      if seen[key] > len(ways): raise Violation("duplicate", f"{what} got {m} {seen[key]} times, there are {len(ways)} ways to it")
      if len(ways) == 1:
        before = last.get((key[0], m["r"]), -1)
        if m["i"] <= before: raise Violation("order", f"{what} got {m} after message {before}")
        last[key[0], m["r"]] = m["i"]
      stats["got"] += 1
    for src in recs:
      if src.config["kind"] != "src": continue
      n = tuple(src.config["n"])
      ways = [ p for p in paths if p[0] == n ]
      if own is not None and own[0] == n[0] and run_of(own[0], src.space) != own[1]: ways = [ p for p in ways if not p[2] ]
      for i, t in enumerate(src.sent):
        if t > end - LATE or not present.covers(t - GRACE, t + LATE) or not calm.covers(t - GRACE, t + LATE): continue
        must = sum(1 for p in ways if all(ds[d].up.covers(t - GRACE, t + LATE) for d in p[1]))
        if not must: continue
        stats["must"] += 1
        if seen.get((n, src.no, i), 0) < must: raise Violation("lost", f"{what} got message {i} of {n}, sent at {t:.3f}, {seen.get((n, src.no, i), 0)} times, there were {must} ways to it")
  def check_all():
    end = sim.now
    for r in recs:
      if r.config["kind"] != "sink": continue
      d = r.config["n"][0]
      k = run_of(d, r.space)
      run = ds[d].runs[k]
      present = Intervals()
      if run[1] is not None: present.on(run[1])
      if run[2] is not None: present.off(run[2])
      for topic in r.config["ins"]:
        got = [ (t, m) for t, tp, m in r.got if tp == topic ]
        if run[3] is not None and any(t > run[3] for t, _ in got): raise Violation("after-stop", f"a sink of deployment {d} got data after it was stopped")
        check_messages(f"the sink {r.config['n']} (topic {topic}, run {k})", got, paths_to(deps, d, topic), present, (d, k), end)
    for v in viewers:
      if v.until is None and v.ws.task.done(): raise Violation("viewer-closed", f"the websocket on topic {v.topic} was closed")
      if v.ws.task.done() and not v.ws.task.cancelled() and v.ws.task.exception() is not None: raise v.ws.task.exception()
      got = [ (0, m["data"]) for m in v.ws.messages if m["type"] == "data" ]
      stats["viewer"] += len(got)
      present, ends = Intervals(), [ x for x in (v.until, ds[v.d].runs[v.run][2] if v.d is not None else None) if x is not None ]
      present.on(v.at)
      if ends: present.off(min(ends))
      check_messages(f"the viewer of topic {v.topic}", got, v.paths, present, None if v.d is None else (v.d, v.run), end, shown=True)
    # what is paused shows as paused
    for r in recs:
      if r.config["kind"] != "sink" or r.ended is not None: continue
      d = r.config["n"][0]
      for topic in r.config["ins"]:
        if not single_chain(deps, d, topic): continue
        ways = paths_to(deps, d, topic)
        if len(ways) != 1 or not all(ds[x].up.covers(end - GRACE, end) for x in ways[0][1]): continue
        src = [ s for s in recs if tuple(s.config["n"]) == ways[0][0] and s.ended is None and s.topic is not None ]
        if len(src) != 1: raise Violation("source-count", f"{len(src)} runs of source {ways[0][0]} are up")
        if r.ins[topic].is_paused != src[0].topic.is_paused: raise Violation("pause", f"source {ways[0][0]} is paused: {src[0].topic.is_paused}, sink {r.config['n']} shows {r.ins[topic].is_paused}")
        sim.probe("pause_judged")
        if src[0].topic.is_paused: sim.probe("paused")

  jobs = []
  async def finish():
    pend = [ j for j in jobs if not j.done() ]
    if pend: await asyncio.wait(pend, timeout=300.0)
    for j in jobs:
      if not j.done(): raise Violation("no-answer", "a request was not answered")
      j.result()
    jobs.clear()
  async def settle():
    await finish()
    await asyncio.sleep(GRACE + 0.5)
    check_all()
  def spawn(coro): jobs.append(asyncio.create_task(coro))
  t0 = sim.now - 2.0
  for at, *op in case["ops"]:
    if t0 + at > sim.now: await asyncio.sleep(t0 + at - sim.now)
    k = op[0]
    if k in ("up", "down", "restart"): spawn(change(op[1], k))
    elif k == "pause":
      live = [ r for r in recs if r.config["kind"] == "src" and r.config["n"][0] == op[1] and r.ended is None and r.topic is not None and r.topic.is_registered ]
      if live: await live[int(op[2] * len(live))].topic.set_paused(op[3])
    elif k == "watch": spawn(watch(op[1], op[2]))
    elif k == "watchname": spawn(watch_name(op[1]))
    elif k == "unwatch":
      open_ = [ v for v in viewers if v.until is None ]
      if open_:
        v = open_[int(op[1] * len(open_))]
        v.until = sim.now
        v.ws.disconnect()
    elif k == "name":
      name = NAMES[op[2]]
      if op[1] == "put": await user.fetch(NetworkAddressNames.NAMED_TOPIC_MANAGER, "put_named_topic", { "name": name, "metadata": { "k": "v" } })
      else: await user.fetch(NetworkAddressNames.NAMED_TOPIC_MANAGER, "delete_named_topic", { "name": name })
    elif k == "cut":
      await finish()
      e = edges[int(op[1] * len(edges))]
      calm.off(sim.now)
      cut_edge(sim, e)
      await asyncio.sleep(op[2])
      await join_edge(sim, switches, e)
      await asyncio.sleep(1.0)
      calm.on(sim.now)
    else: await settle()
  for v in viewers:
    if v.until is None:
      v.until = sim.now
      v.ws.disconnect()
  await asyncio.sleep(0.5)
  for v in viewers:
    if not v.ws.task.done(): raise Violation("viewer-stuck", "a websocket that was disconnected did not end")
  for d in range(len(deps)): await change(d, "down")
  counts = [ (len(r.sent), len(r.got)) for r in recs ]
  await asyncio.sleep(2.0)
  if counts != [ (len(r.sent), len(r.got)) for r in recs ]: raise Violation("after-stop", "data flows although every deployment is stopped")
  check_all()
  for w in services:
    if w.done(): raise Violation("service-died", f"a service ended: {w.exception()!r}" if not w.cancelled() else "a service was cancelled")
  for k, v in stats.items(): sim.probe(k, v)
  sim.states.add((len(recs), stats["must"], stats["viewer"]))
  return { "nontrivial": stats["must"] > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  with scratch_dir():
    return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1, "max_steps": 1500000 })
