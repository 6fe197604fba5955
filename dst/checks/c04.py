"""C04: a node that is stopped withdraws everything it brought, and disturbs nobody else."""
from __future__ import annotations

import asyncio
import contextlib
import os
import uuid

from dst.core import execute
from dst.sim import Violation
from dst.weblab import http, scratch_dir

ID = "C04"
RULE = ("seeded case = a core node and 1-3 further nodes, each a real SystemBuilder with its real task hosts and one scripted one, joined by simulated TCP connections; nodes join, are stopped (asked to, or interrupted) and come back, connections "
        "break, deployments that span nodes are started and stopped meanwhile; non-trivial when a node with running tasks was stopped; distinct by execution fingerprint")
REAL = ["streamtasks.system.builder (SystemBuilder)", "streamtasks.utils (AsyncTaskManager)", "streamtasks.worker", "streamtasks.connection (TCP and unix servers, AutoReconnector)", "streamtasks.system.task (TaskManager, every TaskHost)",
        "streamtasks.system.task_web", "streamtasks.system.connection_manager", "streamtasks.system.named_topic_manager", "streamtasks.system.secret_manager", "streamtasks.services.discovery", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "the tasks that are run (scripted)", "the browser (an ASGI caller at the core node)", "the HTTP front of a node is not started"]
SETTLE = 3.0


def gen(rng, tier="quick"):
  n = rng.choice([1, 1, 2, 2, 3])
  ops, t, up, left = [], 1.0, [True] * n, 0
  def pick(want):
    c = [ i for i in range(n) if up[i] == want ]
    return rng.choice(c) if c else None
  deps = []
  def new_dep():
    where = lambda: rng.randrange(-1, n)
    tasks, k = [], len(deps)
    if rng.random() < 0.8:
      tasks.append({ "kind": "src", "out": 5000 + k, "every": round(rng.choice([0.1, 0.3]) * (0.6 + rng.random()), 3), "node": where() })
      tasks.append({ "kind": "sink", "in": 5000 + k, "node": where() })
    for _ in range(rng.choice([0, 1, 1, 2, 4])): tasks.append({ "kind": rng.choice(["stay", "slow", "slow"]), "d": round(rng.choice([0.0, 0.2, 0.6, 0.85]) * (0.5 + rng.random() * 0.5), 3), "node": where() })
    if not tasks: tasks.append({ "kind": "stay", "node": where() })
    deps.append(tasks)
    return k
  for _ in range(rng.choice([1, 2])): ops.append([t, "deploy", new_dep()])
  for _ in range(rng.randint(2, 6)):
    t += rng.choice([0.5, 2.5, 4.0])
    r = rng.random()
    if r < 0.4 and pick(True) is not None:
      i = pick(True)
      up[i] = False
      left += 1
      op = ["leave", i, rng.choice(["stop", "stop", "ctrlc"])]
    elif r < 0.65 and pick(False) is not None:
      i = pick(False)
      up[i] = True
      op = ["join", i]
    elif r < 0.75: op = ["deploy", new_dep()]
    elif r < 0.82: op = ["undeploy", rng.random()]
    elif r < 0.9 and pick(True) is not None: op = ["cut", pick(True)]
    else: op = ["settle"]
    ops.append([round(t, 3), *op])
  if not left and pick(True) is not None: ops.append([round(t + 3.0, 3), "leave", pick(True), "stop"])
  ops.append([round(t + 6.0, 3), "settle"])
  return { "seed": rng.getrandbits(48), "cfg": { "nodes": n, "hosts": None if rng.random() < 0.08 else [ rng.random() for _ in range(rng.randint(0, 5)) ], "deps": deps, "hub": rng.random() < 0.3 and n > 1, "frag": rng.choice([0.0, 0.3]), "lat": rng.choice([0.001, 0.004, 0.02]), "shuffle": 0.0, "stall_prob": rng.choice([0.0, 0.0003]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.asgi import ASGIProxyApp
  from streamtasks.client.discovery import wait_for_address_name
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.builder import SystemBuilder
  from streamtasks.system.task import TaskManagerClient
  from streamtasks.system.tasks.dstlab import LAB, DstlabTaskHost
  cfg = case["cfg"]
  sim.net.profile.frag, sim.net.profile.lat_max = cfg["frag"], cfg["lat"]
  LAB.recs, LAB.sim = [], sim
  home = os.environ["DATA_DIR"]
  class N: pass
  starting = asyncio.Lock() # what a node is called is read from the environment
  @contextlib.contextmanager
  def env(name):
    before = { k: os.environ.get(k) for k in ("NODE_NAME", "DATA_DIR") }
    os.environ["NODE_NAME"], os.environ["DATA_DIR"] = name, os.path.join(home, name)
    try: yield
    finally:
      for k, v in before.items():
        if v is None: os.environ.pop(k, None)
        else: os.environ[k] = v
  def port(i): return 9000 + i + 1
  async def boot(node):
    async with starting:
      with env(node.name):
        b = SystemBuilder()
        if node.i < 0: await b.start_core()
        else: await b.start_connector(node.to)
        if node.serve: await b.start_server(f"tcp://sim:{port(node.i)}")
        await b.start_connection_manager()
        await b.start_node_server()
        await b.start_task_hosts()
        node.builder, node.done = b, asyncio.create_task(b.wait_done())
        node.since = sim.now
  nodes = []
  for i in range(-1, cfg["nodes"]):
    node = N()
    node.i, node.name, node.builder, node.done, node.busy, node.since = i, f"node{i}", None, None, asyncio.Lock(), None
    node.serve = i < 0 or (i == 0 and cfg["hub"])
    node.to = f"tcp://sim:{port(0 if cfg['hub'] and i > 0 else -1)}"
    nodes.append(node)
  core, others = nodes[0], nodes[1:]
  await boot(core)
  user = Client(await core.builder.switch.add_local_connection())
  user.start()
  await user.request_address()
  for name in (NetworkAddressNames.TASK_MANAGER, NetworkAddressNames.TASK_MANAGER_WEB): await wait_for_address_name(user, name)
  app, tm = ASGIProxyApp(user, NetworkAddressNames.TASK_MANAGER_WEB), TaskManagerClient(user)
  def reachable(node): return node.builder is not None and (node.to.endswith(str(port(-1))) or others[0].builder is not None)
  async def ask(method, path, body=None):
    st, out = await http(app, method, path, body, limit=60.0)
    return st, out
  async def hosts_of(node): # when this node has told the task manager about all its hosts
    return [ h for h in await tm.list_task_hosts() if h.metadata.get("nodename") == node.name ]
  per_node = None
  async def wait_registered(node):
    end = sim.now + 15.0
    before = -1
    while True:
      n = len(await hosts_of(node))
      if n == before and (per_node is None and n > 0 or n == per_node): return n
      if sim.now > end: raise Violation("not-registered", f"{node.name} joined, {n} of its {per_node} task hosts are registered after 15 s")
      before = n
      await asyncio.sleep(1.0)
  per_node = await wait_registered(core)
  host_id = {}
  async def learn(node):
    mine = [ h for h in await hosts_of(node) if h.metadata.get("cfg:label") == "dstlab" ]
    if len(mine) != 1: raise Violation("host-list", f"{node.name} registered {len(mine)} task hosts of one kind")
    if host_id.setdefault(node.name, mine[0].id) != mine[0].id: raise Violation("host-id", f"{node.name} came back with another id for the same task host")
  await learn(core)
  busy = asyncio.Lock() # requests are not made while nodes come and go
  async def join(node):
    async with node.busy:
      if node.builder is not None or cfg["hub"] and node.i > 0 and others[0].builder is None: return
      await boot(node)
      await wait_registered(node)
      await learn(node)
      sim.probe("joins")
  async def leave(node, how):
    async with node.busy:
      if node.builder is None: return
      if node.serve and node.i >= 0 and any(o.builder is not None for o in others if o is not node): return # others are behind it
      sim.fault("node_stop")
      b, t0 = node.builder, sim.now
      mine = [ r for r in LAB.recs if r.node == node.name and r.ended is None and r.begun is not None ]
      stopped[0] += bool(mine)
      if how == "stop": task = asyncio.create_task(b.stop())
      else: (task := node.done).cancel() # what an interrupt does to it
      await asyncio.wait([ task, node.done ], timeout=30.0)
      for t in (task, node.done):
        if not t.done(): raise Violation("stop-stuck", f"{node.name} does not stop ({how})")
        if not t.cancelled() and t.exception() is not None: raise t.exception()
      sim.probe("stop_ms", int(1000 * (sim.now - t0)))
      left = [ r.config for r in mine if r.ended is None ]
      if left: raise Violation("task-left", f"{node.name} is stopped, {left} still run")
      node.builder = None
      await asyncio.sleep(2.0)
      if node.i >= 0:
        there = await hosts_of(node)
        if there: raise Violation("host-left", f"{node.name} was stopped, {len(there)} of its task hosts are still registered ({[ h.id for h in there ][:3]})")
        await check_paths()
        open_ = [ c for c in sim.net.open_conns(("tcp", node.to.rsplit(":", 1)[1])) ]
        want = sum(1 for o in others if o.builder is not None and o.to == node.to)
        if len(open_) != want: raise Violation("link-left", f"{len(open_)} connections are open, {want} nodes are there")
  async def check_paths():
    st, regs = await ask("GET", "/api/path-registrations")
    if st != 200: raise Violation("refused", f"path registrations: {st}")
    n = sum(1 for r in regs if "onnection" in r["path"])
    want = sum(1 for o in nodes if o.builder is not None)
    if n != want: raise Violation("path-left", f"{n} connection managers are registered ({[ r['path'] for r in regs ]}), {want} nodes are there")

  deployments = {} # index -> { "nodes", "start" }
  def dep_id(k): return str(uuid.UUID(int=0xd0000000000040008000000000000000 + k))
  def where(t): return nodes[t["node"] + 1]
  async def deploy(k):
    tasks = cfg["deps"][k]
    if any(not reachable(where(t)) for t in tasks): return
    st, _ = await ask("POST", "/api/deployment", { "id": dep_id(k), "label": f"d{k}" })
    if st != 200: raise Violation("refused", f"deployment {k} was not created: {st}")
    for j, t in enumerate(tasks):
      st, _ = await ask("PUT", "/api/task", { "id": str(uuid.UUID(int=0x70000000000040008000000000000000 + k * 100 + j)), "deployment_id": dep_id(k), "task_host_id": host_id[where(t).name], "label": "x", "config": { **t, "n": [ k, j ] }, "frontend_config": {},
                                              "inputs": [ { "topic_id": t["in"], "label": "i" } ] if "in" in t else [], "outputs": [ { "topic_id": t["out"], "label": "o" } ] if "out" in t else [] })
      if st != 200: raise Violation("refused", f"task {j} of deployment {k} was not created: {st}")
    for what in ("schedule", "start"):
      st, _ = await ask("POST", f"/api/deployment/{dep_id(k)}/{what}")
      if st != 200: raise Violation("refused", f"{what} of deployment {k} on {sorted({ where(t).name for t in tasks })} was answered with {st}")
    deployments[k] = { "at": sim.now, "gone": set() }
    sim.probe("deployments")
  async def undeploy(k):
    d = deployments.pop(k)
    st, _ = await ask("POST", f"/api/deployment/{dep_id(k)}/stop")
    if st != 200 and not d["gone"]: raise Violation("refused", f"deployment {k} can not be stopped: {st}")

  async def check():
    listed = await tm.list_task_hosts()
    for node in nodes:
      mine = [ h for h in listed if h.metadata.get("nodename") == node.name ]
      want = per_node if node.builder is not None else 0
      if len(mine) != want or len({ h.id for h in mine }) != want: raise Violation("host-list", f"{node.name} {'is up' if want else 'is stopped'}, {len(mine)} of its {want} task hosts are registered")
      if node.builder is not None and node.done.done(): raise Violation("node-died", f"{node.name} ended by itself: {node.done.exception()!r}" if not node.done.cancelled() else f"{node.name} was cancelled")
    await check_paths()
    for k, d in deployments.items():
      st, body = await ask("GET", f"/api/deployment/{dep_id(k)}/tasks")
      if st != 200: raise Violation("refused", f"tasks of deployment {k}: {st}")
      recs = { tuple(r.config["n"]): r for r in LAB.recs if r.config["n"][0] == k }
      for x in body:
        n = tuple(x["config"]["n"])
        gone = x["config"]["node"] in d["gone"]
        rec, status = recs.get(n), x["task_instance"]["status"]
        if rec is None: raise Violation("not-started", f"task {n} was never started")
        want = "stopped" if gone else "running"
        if status != want: raise Violation("status", f"task {n} on {rec.node} ({x['config']['kind']}), which {'was stopped' if gone else 'is up'}, is shown as {status}")
        if (rec.ended is not None) != gone: raise Violation("task-state", f"task {n} on {rec.node} {'still runs' if gone else 'ended'}")
      for n, sink in recs.items():
        if sink.config["kind"] != "sink" or sink.ended is not None: continue
        src = recs[n[0], n[1] - 1]
        if src.ended is not None: continue
        quiet = max(d["at"], last_cut[0])
        want = [ i for i, t in enumerate(src.sent) if t > quiet + SETTLE and t < sim.now - 1.0 ]
        got = [ m["i"] for _, m in sink.got ]
        if len(set(got)) != len(got) or sorted(got) != got: raise Violation("order", f"sink {n} got {got[-20:]}")
        lost = [ i for i in want if i not in set(got) ]
        sim.probe("flow", len(want))
        if lost: raise Violation("lost", f"sink {n} on {sink.node} did not get {lost[:5]} of {src.node}, both were up all along")
  last_cut, stopped = [ -10.0 ], [ 0 ]

  for node in others: await join(node)
  t0, shift = sim.now, 0.0
  for at, *op in case["ops"]:
    if t0 + shift + at > sim.now: await asyncio.sleep(t0 + shift + at - sim.now)
    before = sim.now
    k = op[0]
    if k == "join": await join(others[op[1]])
    elif k == "leave":
      node = others[op[1]]
      was = node.builder is not None
      await leave(node, op[2])
      if was and node.builder is None:
        for kk, d in deployments.items():
          if any(t["node"] == node.i for t in cfg["deps"][kk]): d["gone"].add(node.i)
    elif k == "deploy": await deploy(op[1])
    elif k == "undeploy":
      if deployments: await undeploy(sorted(deployments)[int(op[1] * len(deployments))])
    elif k == "cut":
      node = others[op[1]]
      conns = sim.net.open_conns(("tcp", node.to.rsplit(":", 1)[1]))
      if conns:
        last_cut[0] = sim.now
        sim.fault("conn_reset")
        sim.net.reset_conn(conns[0])
        await asyncio.sleep(2.5)
        last_cut[0] = sim.now
    else:
      await asyncio.sleep(SETTLE + 1.0)
      await check()
    shift += sim.now - before
  for k in sorted(deployments): await undeploy(k)
  for node in reversed(nodes): await leave(node, "stop")
  if len(sim.net.open_conns()) != 0: raise Violation("link-left", "connections are open although every node is stopped")
  if any(r.ended is None for r in LAB.recs if r.begun is not None): raise Violation("task-left", "tasks run although every node is stopped")
  sim.probe("hosts_per_node", per_node)
  return { "nontrivial": stopped[0] > 0 }


@contextlib.contextmanager
def lab_tasks(some):
  """Lets nodes find the scripted task host, as they would find another module with a task, and all the real ones or some."""
  import importlib
  import streamtasks.system.tasks as tasks
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "labtasks")
  before = list(tasks.__path__)
  if some is None: tasks.__path__.append(path)
  else:
    here = os.path.join(os.environ["DATA_DIR"], "tasks")
    os.mkdir(here)
    names = sorted(n[:-3] for n in os.listdir(before[0]) if n.endswith(".py") and not n.startswith("_"))
    for n in sorted({ names[int(x * len(names))] for x in some }):
      importlib.import_module(f"{tasks.__name__}.{n}")
      os.symlink(os.path.join(before[0], f"{n}.py"), os.path.join(here, f"{n}.py"))
    tasks.__path__[:] = [ here, path ]
  importlib.invalidate_caches()
  try: yield
  finally: tasks.__path__[:] = before


def run(case, keep_log=False):
  cfg = case["cfg"]
  with scratch_dir(), lab_tasks(cfg["hosts"]):
    return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg["stall_prob"], "stall_max": 0.1, "max_steps": 3000000 })
