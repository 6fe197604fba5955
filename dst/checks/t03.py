"""T03: a deployment runs each of its tasks exactly once per start, and nothing of it is left once it is stopped."""
from __future__ import annotations

import asyncio
import uuid

from dst.core import execute
from dst.lab import gen_edges
from dst.sim import Violation
from dst.tasklab import attach, boot_client, make_host, settle_call, start_net
from dst.weblab import Ws, http, scratch_dir

ID = "T03"
RULE = ("seeded case = loop-free network with the real discovery worker, task manager and web backend, 1-3 task hosts with scripted tasks, 1-3 web users that create, edit, schedule, start, stop and delete "
        "deployments and tasks concurrently over HTTP and follow them over websockets, optionally with hosts that shut down and come back; non-trivial when a deployment was started and stopped or edited "
        "concurrently; distinct by execution fingerprint")
REAL = ["streamtasks.system.task_web (TaskWebBackend)", "streamtasks.system.task (TaskManager, TaskHost, TaskManagerClient)", "streamtasks.asgi", "streamtasks.asgiserver", "streamtasks.pydanticdb", "streamtasks.client", "streamtasks.services.discovery", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "the tasks themselves (scripted)", "the browser (an ASGI caller on the other side of the network)"]

MODES = ["forever", "forever", "forever", "end", "fail", "stubborn", "swallow", "instafail", "setup-fail", "create-fail"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }
  n_hosts, n_dep, n_tasks = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 5)
  users = [ place() for _ in range(rng.randint(1, 3)) ]
  unstable = rng.random() < 0.25
  modes = MODES + (["setup-slow"] if rng.random() < 0.2 else []) + (["setup-wait"] * 3 if rng.random() < 0.3 else [])
  def put(): return ["put", rng.randrange(n_tasks), rng.randrange(n_dep), rng.randrange(n_hosts), rng.choice(modes), round(rng.choice([0.001, 0.01, 0.1, 0.4]) * (0.5 + rng.random()), 4), rng.sample(range(1, 6), rng.randint(0, 3))]
  focus = rng.randrange(n_dep)
  setup = [ ["new", d] for d in range(n_dep) if rng.random() < 0.9 ] + [ [*put()[:1], i, focus if rng.random() < 0.7 else rng.randrange(n_dep), *put()[3:]] for i in range(n_tasks) if rng.random() < 0.85 ]
  ops, t, up = [], 2.0, [True] * n_hosts
  for _ in range(rng.randint(6, 30)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.003, 0.01, 0.05, 0.3, 1.2])
    u, d, r = rng.randrange(len(users)), focus if rng.random() < 0.6 else rng.randrange(n_dep), rng.random()
    if r < 0.2: op = ["sched", d]
    elif r < 0.4: op = ["start", d]
    elif r < 0.55: op = ["stop", d]
    elif r < 0.63: op = ["get", d]
    elif r < 0.68: op = ["tasks", d]
    elif r < 0.78: op = put()
    elif r < 0.81: op = ["deltask", rng.randrange(n_tasks)]
    elif r < 0.84: op = ["upd", d]
    elif r < 0.86: op = ["del", d]
    elif r < 0.88: op = ["new", d]
    elif r < 0.93: op = ["ws", d]
    elif r < 0.95: op = ["wsclose", rng.random()]
    elif unstable and r < 0.98:
      h = rng.randrange(n_hosts)
      op = ["down" if up[h] else "up", h]
      up[h] = not up[h]
    else:
      t += 4.0
      op = ["settle"]
    ops.append([round(t, 4), u, *op])
    if op[0] in ("sched", "start") and rng.random() < 0.5:
      t += rng.choice([0.0, 0.1, 0.5])
      ops.append([round(t, 4), u, { "sched": "start", "start": "stop" }[op[0]], op[1]])
  ops.append([round(t + 4.0, 4), 0, "settle"])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "hosts": [ { **place(), "kind": "queue" } for _ in range(n_hosts) ], "users": users, "setup": setup, "unstable": unstable,
           "tm": place(), "web": place(), "disc": { **place(), "at": 0 }, "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.0005]) }, "ops": ops }


def apply(state, op, res, unstable):
  """The states a request answered with `res` may lead to. state = (deployments, tasks, lower, upper), all sorted tuples."""
  deps, tasks, lower, upper = dict(state[0]), dict(state[1]), dict(state[2]), dict(state[3])
  k, st, val = op[0], res[0], res[1]
  def out(): return (tuple(sorted(deps.items())), tuple(sorted(tasks.items())), tuple(sorted(lower.items())), tuple(sorted(upper.items())))
  def phase(d): return deps[d][0] if d in deps else None
  if k in ("put", "deltask"):
    old = tasks.get(op[1])
    busy = old is not None and phase(old[0]) not in (None, "off") or k == "put" and phase(op[2]) not in (None, "off")
    if k == "put":
      if busy: return [ out() ] if st == 400 else []
      if st != 200: return []
      tasks[op[1]] = (op[2], op[-1])
      return [ out() ]
    if old is None or busy: return [ out() ] if st == 400 else []
    if st != 200: return []
    del tasks[op[1]]
    return [ out() ]
  d = op[1]
  p = phase(d)
  mine = [ n for dd, n in tasks.values() if dd == d ]
  if k == "new":
    if p is not None: return [ out() ] if st == 400 else []
    if st != 200: return []
    deps[d] = ("off", op[-1])
  elif k == "upd":
    if p != "off": return [ out() ] if st == 400 else []
    if st != 200: return []
    deps[d] = ("off", op[-1])
  elif k == "del":
    if p not in (None, "off"): return [ out() ] if st == 400 else []
    if st != 200: return []
    deps.pop(d, None)
  elif k == "sched":
    if p != "off": return [ out() ] if st == 400 else []
    if st != 200: return []
    deps[d] = ("scheduled", deps[d][1])
  elif k == "start":
    if p in (None, "off"): return [ out() ] if st == 404 else []
    if p == "running": return [ out() ] if st == 400 else []
    first = p == "scheduled"
    if first:
      for n in mine: upper[n] = upper.get(n, 0) + 1
    if st == 200:
      if first and not unstable:
        for n in mine: lower[n] = lower.get(n, 0) + 1
      deps[d] = ("running", deps[d][1])
    elif unstable: deps[d] = ("partly", deps[d][1])
    else: return []
  elif k == "stop":
    if p in (None, "off"): return [ out() ] if st == 404 else []
    if st == 200: deps[d] = ("off", deps[d][1])
    elif not unstable: return []
  elif k == "get":
    if p is None: return [ out() ] if st == 400 else []
    if st != 200: return []
    want = { "off": "offline", "scheduled": "scheduled", "partly": "scheduled", "running": "running" }[p]
    if val != (want, deps[d][1]): return []
  elif k == "tasks":
    if st != 200 or val != tuple(sorted((t, n) for t, (dd, n) in tasks.items() if dd == d)): return []
  return [ out() ]


def linearize(history, unstable, accept, limit=400000):
  """Whether some order of the requests that respects their times explains every answer (and accept(state) holds at the end)."""
  import sys
  sys.setrecursionlimit(10000)
  history = sorted(history, key=lambda h: h[0])
  n = len(history)
  best = [0, None]
  seen = set()
  stack = [ (frozenset(), ((), (), (), ())) ]
  while stack:
    done, state = stack.pop()
    if (done, state) in seen: continue
    seen.add((done, state))
    if len(seen) > limit: return None
    if len(done) == n:
      if accept(state): return True
      best = [n, ("end", state)]
      continue
    todo = [ i for i in range(n) if i not in done ]
    first_end = min(history[i][1] for i in todo)
    cand = [ i for i in todo if history[i][0] <= first_end ]
    if len(done) >= best[0]: best = [len(done), ([ (history[i][2], history[i][3]) for i in cand ], state)]
    for i in reversed(cand):
      for s in apply(state, history[i][2], history[i][3], unstable): stack.append((done | { i }, s))
  return best[1]


async def main(sim, case):
  from streamtasks.asgi import ASGIProxyApp
  from streamtasks.client.discovery import get_topic_space, wait_for_address_name
  from streamtasks.client.fetch import FetchError
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.task import TaskManager, TaskManagerClient
  from streamtasks.system.task_web import TaskWebBackend
  cfg = case["cfg"]
  unstable = cfg["unstable"]
  dep_ids = [ str(uuid.UUID(int=0xd0000000000040008000000000000000 + i)) for i in range(3) ]
  task_ids = [ str(uuid.UUID(int=0x70000000000040008000000000000000 + i)) for i in range(16) ]
  switches, d_task, probe = await start_net(sim, cfg)
  recs, services = [], [ d_task ]
  tm, web = TaskManager(), TaskWebBackend()
  await attach(sim, switches, tm, cfg["tm"], "tm")
  await attach(sim, switches, web, cfg["web"], "web")
  async def later(w):
    await asyncio.sleep(0.2)
    await w.run()
  services += [ asyncio.create_task(later(tm)), asyncio.create_task(later(web)) ]
  class H: pass
  hosts = []
  async def host_up(h):
    async with h.busy:
      if h.host is not None: return
      host = make_host(sim, h.id, recs, [ NetworkAddressNames.TASK_MANAGER ])
      h.link = await attach(sim, switches, host, h.spec, h.id)
      h.task = asyncio.create_task(later(host))
      h.host = host
  async def host_down(h):
    async with h.busy:
      if h.host is None: return
      sim.fault("host_shutdown")
      if h.host.registering or not h.host.ready.is_set(): await asyncio.sleep(1.5)
      h.task.cancel()
      await asyncio.wait([ h.task ], timeout=6.0)
      if not h.task.done(): raise Violation("host-stuck", f"host {h.i} does not shut down")
      await asyncio.sleep(0.1)
      h.link.close()
      h.host = None
  for i, spec in enumerate(cfg["hosts"]):
    h = H()
    h.i, h.id, h.spec, h.host, h.busy = i, f"host{i}", spec, None, asyncio.Lock()
    hosts.append(h)
    await host_up(h)
  await wait_for_address_name(probe, NetworkAddressNames.TASK_MANAGER_WEB)
  apps = []
  for i, spec in enumerate(cfg["users"]):
    c = await boot_client(sim, switches, spec, f"u{i}")
    await wait_for_address_name(c, NetworkAddressNames.TASK_MANAGER_WEB)
    apps.append(ASGIProxyApp(c, NetworkAddressNames.TASK_MANAGER_WEB))
  check = TaskManagerClient(probe)
  await asyncio.sleep(0.5)
  for h in hosts:
    if not h.host.ready.is_set() or h.host.registering: raise Violation("host-stuck", f"host {h.i} is not registered after half a second")

  history, seq = [], [0]
  about = {} # n -> (deployment, host, mode)
  seen_instances = {} # task instance id -> n
  sockets = []
  def stamp():
    seq[0] += 1
    return seq[0]
  async def request(u, op, n):
    app, k = apps[u], op[0]
    t0 = stamp()
    d = dep_ids[op[1]] if k not in ("put", "deltask") else None
    val = None
    if k == "new": st, _ = await http(app, "POST", "/api/deployment", { "id": d, "label": f"l{n}" }); op = [*op, f"l{n}"]
    elif k == "upd": st, _ = await http(app, "PUT", "/api/deployment", { "id": d, "label": f"l{n}" }); op = [*op, f"l{n}"]
    elif k == "del": st, _ = await http(app, "DELETE", f"/api/deployment/{d}")
    elif k == "put":
      _, tid, dep, h, mode, dur, outs = op
      about[n] = (dep, h, mode, outs)
      st, _ = await http(app, "PUT", "/api/task", { "id": task_ids[tid], "deployment_id": dep_ids[dep], "task_host_id": f"host{h}", "label": "x", "config": { "n": n, "mode": mode, "d": dur }, "frontend_config": {},
                                                     "inputs": [], "outputs": [ { "topic_id": o, "label": "o" } for o in outs ] })
      op = ["put", tid, dep, n]
    elif k == "deltask": st, _ = await http(app, "DELETE", f"/api/task/{task_ids[op[1]]}")
    elif k in ("sched", "start", "stop"):
      st, body = await http(app, "POST", f"/api/deployment/{d}/{ { 'sched': 'schedule' }.get(k, k) }", limit=90.0)
      if st == 200 and body["status"] != { "sched": "scheduled", "start": "running", "stop": "offline" }[k]: raise Violation("wrong-status", f"deployment {op[1]} is {body['status']} after {k}")
    elif k == "get":
      st, body = await http(app, "GET", f"/api/deployment/{d}")
      if st == 200: val = (body["status"], body["label"])
    elif k == "tasks":
      st, body = await http(app, "GET", f"/api/deployment/{d}/tasks")
      if st == 200:
        val = tuple(sorted((task_ids.index(x["id"]), x["config"]["n"]) for x in body))
        for x in body:
          if x["task_instance"] is not None: seen_instances[x["task_instance"]["id"]] = x["config"]["n"]
    if st not in (200, 400, 404) and not (unstable and k in ("start", "stop")): raise Violation("server-error", f"{k} {op[1:]} was answered with {st}")
    history.append((t0, stamp(), tuple(op), (st, val)))
    return st, val

  async def settle():
    for h in hosts: # everyone is there when things are checked
      if h.host is None: await host_up(h)
    await asyncio.sleep(8.0 if unstable else 3.0)
    live_spaces, current = {}, {}
    for d in range(len(dep_ids)):
      st, val = await request(0, ["get", d], None)
      if st != 200: continue
      status = val[0]
      st, body = await http(apps[0], "GET", f"/api/deployment/{dep_ids[d]}/tasks")
      for x in body:
        n, inst = x["config"]["n"], x["task_instance"]
        mine = [ r for r in recs if r.config["n"] == n ]
        if status == "offline":
          if inst is not None: raise Violation("instance-left", f"task {n} of offline deployment {d} shows {inst}")
          continue
        if inst is None: raise Violation("instance-missing", f"task {n} of {status} deployment {d} shows no instance")
        if inst["host_id"] != f"host{about[n][1]}": raise Violation("wrong-host", f"task {n} is on {inst['host_id']}")
        current[x["id"]] = inst["id"]
        seen_instances[inst["id"]] = n
        if status != "running" or unstable: continue
        rec = mine[-1] if mine else None
        if rec is None: raise Violation("not-started", f"task {n} of running deployment {d} was never created")
        want = "failed" if about[n][2] in ("setup-fail", "create-fail", "setup-slow") else rec.outcome[0] if rec.outcome else "running"
        if inst["status"] != want: raise Violation("stale-status", f"task {n} of deployment {d} is {want} ({rec.outcome}), shown as {inst['status']}")
        if want == "failed" and rec.outcome and inst["error"] != rec.outcome[1]: raise Violation("stale-error", f"task {n} failed with {rec.outcome[1]!r}, shown {inst['error']!r}")
      here = [ r for r in recs if about[r.config["n"]][0] == d and r.runs and r.outcome is None ]
      if status == "offline" and here: raise Violation("task-left", f"tasks {[ r.config['n'] for r in here ]} of offline deployment {d} still run")
      spaces = { r.space for r in here }
      if len(spaces) > 1: raise Violation("mixed-spaces", f"tasks of deployment {d} run in topic spaces {spaces}")
      if status != "offline":
        live_spaces[d] = None
        if here: live_spaces[d] = next(iter(spaces))
    if not unstable:
      known = {}
      for s in range(0, len(case["ops"]) + 10):
        st, r = await settle_call(get_topic_space(probe, s), 20.0, "topic space query")
        if st == "ok": known[s] = r
        elif not isinstance(r, FetchError): raise r
      if len(known) != len(live_spaces): raise Violation("space-leak", f"{len(live_spaces)} deployments are up ({live_spaces}), topic spaces {sorted(known)} exist")
      ids = [ t for m in known.values() for t in m.values() ]
      if len(set(ids)) != len(ids): raise Violation("space-overlap", f"topic spaces overlap: {known}")
      for d, s in live_spaces.items():
        if s is None: continue
        if s not in known: raise Violation("space-gone", f"deployment {d} runs in topic space {s}, which does not exist")
        outs = { o for r in recs if r.space == s for o in about[r.config["n"]][3] }
        if not outs <= set(known[s]): raise Violation("space-topics", f"topic space {s} of deployment {d} maps {sorted(known[s])}, its tasks write {sorted(outs)}")
    for w in sockets:
      if w.d in live_spaces and w.open and not unstable:
        if w.ws.task.done() and any(current.get(tid) == inst["id"] for tid, inst in w.instances.items()): raise Violation("socket-closed", f"the websocket of running deployment {w.d} was closed")
        for tid, inst in w.instances.items():
          if current.get(tid) != inst["id"]: continue # another run by now
          mine = [ r for r in recs if r.config["n"] == w.ns[tid] ]
          if mine and mine[-1].outcome and mine[-1].ended > w.at + 1.0:
            told = [ m["task_instance"]["status"] for m in w.ws.messages if m["id"] == tid ]
            if told[-1:] != [ mine[-1].outcome[0] ]: raise Violation("socket-news", f"task {w.ns[tid]} {mine[-1].outcome[0]}, the websocket said {told}")

  async def open_socket(u, d):
    class W: pass
    w = W()
    st, body = await http(apps[u], "GET", f"/api/deployment/{dep_ids[d]}/tasks")
    w.d, w.ws, w.open = d, Ws(apps[u], f"/deployment/{dep_ids[d]}/task-instances"), True
    w.instances = { x["id"]: x["task_instance"] for x in body if x["task_instance"] is not None }
    w.ns = { x["id"]: x["config"]["n"] for x in body }
    w.at = sim.now + 0.8
    sockets.append(w)

  async def user(n, u, op):
    async with locks[u]: await request(u, op, n)
  locks = [ asyncio.Lock() for _ in apps ]
  async def finish():
    pend = [ j for j in jobs if not j.done() ]
    if pend: await asyncio.wait(pend, timeout=600.0)
    for j in jobs:
      if not j.done(): raise Violation("no-answer", "a request was not answered")
      j.result()
  for n, op in enumerate(cfg["setup"]): await request(0, op, 1000 + n)
  t0 = sim.now - 2.0
  jobs = []
  for n, (at, u, *op) in enumerate(case["ops"]):
    if t0 + at > sim.now: await asyncio.sleep(t0 + at - sim.now)
    k = op[0]
    if k == "ws": jobs.append(asyncio.create_task(open_socket(u, op[1])))
    elif k == "wsclose":
      if sockets:
        w = sockets[int(op[1] * len(sockets))]
        w.open = False
        w.ws.disconnect()
    elif k == "down": jobs.append(asyncio.create_task(host_down(hosts[op[1]])))
    elif k == "up": jobs.append(asyncio.create_task(host_up(hosts[op[1]])))
    elif k == "settle":
      await finish()
      await settle()
    else: jobs.append(asyncio.create_task(user(n, u, op)))
  await finish()
  await asyncio.sleep(1.0)
  for w in sockets:
    if not w.open and not w.ws.task.done(): raise Violation("socket-stuck", f"a websocket of deployment {w.d} that was disconnected did not end")
    if w.ws.task.done() and w.ws.task.exception() is not None: raise w.ws.task.exception()
  # everything is stopped in the end
  for d in range(len(dep_ids)):
    for attempt in range(3):
      st, val = await request(0, ["get", d], None)
      if st != 200 or val[0] == "offline": break
      if attempt == 2: raise Violation("can-not-stop", f"deployment {d} can not be stopped although every host is there")
      await request(0, ["stop", d], None)
  await settle()
  for iid, n in seen_instances.items():
    st, r = await settle_call(check.get_task(uuid.UUID(iid)), 20.0, "task query")
    if st == "ok": raise Violation("instance-leak", f"the task manager still has an instance of task {n}: {r}")
  counts = {}
  for r in recs: counts[r.config["n"]] = counts.get(r.config["n"], 0) + 1
  def accept(state):
    lower, upper = dict(state[2]), dict(state[3])
    return all(lower.get(n, 0) <= counts.get(n, 0) <= upper.get(n, 0) for n in set(lower) | set(upper) | set(counts))
  bad = linearize(history, unstable, accept)
  if bad not in (True, None):
    if bad[0] == "end": raise Violation("run-counts", f"tasks were created {counts} times, no order of the requests explains that (one gives lower {dict(bad[1][2])}, upper {dict(bad[1][3])})")
    raise Violation("history", f"no order of the requests explains the answers; stuck before {bad[0]} in {bad[1][:2]}")
  if bad is None: sim.probe("history_too_big")
  for w in services:
    if w.done(): raise Violation("service-died", f"a service ended: {w.exception()!r}" if not w.cancelled() else "a service was cancelled")
  ok = [ h[2][0] for h in history if h[3][0] == 200 ]
  for k in ("sched", "start", "stop"): sim.probe(k, ok.count(k))
  sim.probe("refused", sum(1 for h in history if h[3][0] != 200))
  sim.probe("tasks_run", len(recs))
  sim.states.add(tuple((h[2][0], h[3][0]) for h in history)[:40])
  return { "nontrivial": ok.count("start") > 0 and len(recs) > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  with scratch_dir():
    return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1 })
