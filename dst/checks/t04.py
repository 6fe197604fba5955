"""T04: what the system has stored survives crashes, disk faults and restarts."""
from __future__ import annotations

import asyncio
import contextlib
import urllib.parse
import uuid

from dst.core import execute
from dst.lab import gen_edges
from dst.sim import Violation
from dst.simfs import disk
from dst.tasklab import attach, boot_client, start_net
from dst.weblab import http, scratch_dir

ID = "T04"
RULE = ("seeded case = loop-free network, one process with the web backend, the secret manager and the named topic manager on a simulated disk, 1-3 users who create, change, delete, read and list deployments, tasks, dashboards, "
        "secrets and named topics concurrently over HTTP and fetch; the process shuts down, is killed, or dies before, during or after any single disk operation, power is lost, the disk is full, calls fail, writes are short; "
        "non-trivial when something was stored and the process came back at least once; distinct by execution fingerprint")
REAL = ["streamtasks.system.task_web (TaskWebBackend and its store)", "streamtasks.system.secret_manager", "streamtasks.system.named_topic_manager", "streamtasks.pydanticdb", "streamtasks.asgi/asgiserver", "streamtasks.client", "streamtasks.services.discovery", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "disk (real files behind a fault layer that decides what survives)", "HTTP server and browser (ASGI calls)"]
COUNT = { "quick": 6000, "thorough": 400000 }

KINDS = ("dep", "task", "dash", "sec", "top")
PER_KIND = 3
NAMES = ["plain", "a b/c", "ümläut?#%"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "queue", "delay"]) }
  ops, t = [], 0.0
  faults = rng.random()
  kinds = rng.sample(KINDS, rng.randint(1, 5))
  for _ in range(rng.randint(8, 40)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.01, 0.1, 0.3])
    r = rng.random()
    item = [ rng.choice(kinds), rng.randrange(PER_KIND) ]
    if r < 0.5: ops.append([round(t, 4), "put", *item, rng.choice([0, 0, 10, 300, 9000, 70000]), rng.random() < 0.5])
    elif r < 0.62: ops.append([round(t, 4), "del", *item, 0, rng.random() < 0.5])
    elif r < 0.7: ops.append([round(t, 4), "get", *item, 0, rng.random() < 0.5])
    elif r < 0.76: ops.append([round(t, 4), "list", item[0], 0, 0, False])
    elif r < 0.80: ops.append([round(t, 4), "restart"])
    elif r < 0.84: ops.append([round(t, 4), "kill", rng.random() < 0.4])
    elif r < 0.87: ops.append([round(t, 4), "full", round(rng.choice([0.001, 0.01, 0.2, 1.0]) * (0.5 + rng.random()), 4)])
    elif faults < 0.8:
      ops.append([round(t, 4), "arm", rng.choice(["crash-before", "crash-after", "crash-torn", "crash-torn", "eio", "short"]), rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12]), round(rng.random(), 3), rng.random() < 0.4])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "users": [ place() for _ in range(rng.randint(1, 3)) ], "proc": { **place(), "kind": "queue" }, "disc": { **place(), "at": 0 },
           "shuffle": rng.choice([0.0, 0.3, 0.8]) }, "ops": ops }


class Item:
  def __init__(self, kind, i):
    self.kind, self.i = kind, i
    self.id = NAMES[i] if kind == "top" else str(uuid.UUID(int={ "dep": 0xd, "task": 0xa, "dash": 0xb, "sec": 0xc }[kind] * 16**31 + 0x40008000000000000000 + i)) 
    self.vals = [ None ]  # every value it had, in order
    self.pending = ()     # the value a request in flight is about to give it
    self.base = 0         # vals from here on count since the process came up
    self.lock = asyncio.Lock()
  def __repr__(self): return f"{self.kind} {self.i}"


async def main(sim, case):
  from streamtasks.asgi import ASGIProxyApp
  from streamtasks.client.discovery import wait_for_address_name
  from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.named_topic_manager import NamedTopicManager
  from streamtasks.system.secret_manager import SecretManager, SecretManagerClient
  from streamtasks.system.task_web import TaskWebBackend
  cfg, fs = case["cfg"], sim.fs
  rng = sim.rng("powerloss")
  switches, d_task, probe = await start_net(sim, cfg)
  items = { (k, i): Item(k, i) for k in KINDS for i in range(PER_KIND) }
  def of(kind): return [ items[(kind, i)] for i in range(PER_KIND) ]
  stored = [0]

  class P: pass
  state = P()
  state.proc, state.boots = None, 0
  async def up():
    p = P()
    state.boots += 1
    p.ending, p.gone, p.power = False, asyncio.Event(), False
    try: p.workers = [ TaskWebBackend(), SecretManager(), NamedTopicManager() ]
    except Exception as e: raise Violation("does-not-start", f"the process does not come up again: {e!r}")
    p.links = []
    p.tasks = []
    for i, w in enumerate(p.workers):
      p.links.append(await attach(sim, switches, w, cfg["proc"], f"p{state.boots}.{i}"))
      await asyncio.sleep(0.2)
      p.tasks.append(asyncio.create_task(w.run()))
      await asyncio.sleep(0.3)
    for i, t in enumerate(p.tasks):
      if t.done(): raise Violation("does-not-start", f"{type(p.workers[i]).__name__} ended: {t.exception() if not t.cancelled() else 'cancelled'}")
    await wait_for_address_name(probe, NetworkAddressNames.TASK_MANAGER_WEB)
    p.users = []
    for i, spec in enumerate(cfg["users"]):
      c = await boot_client(sim, switches, spec, f"u{i}.{state.boots}")
      for n in (NetworkAddressNames.TASK_MANAGER_WEB, NetworkAddressNames.SECRET_MANAGER, NetworkAddressNames.NAMED_TOPIC_MANAGER): await asyncio.wait_for(wait_for_address_name(c, n), 5.0)
      p.users.append((c, ASGIProxyApp(c, NetworkAddressNames.TASK_MANAGER_WEB)))
    def died():
      p.ending = True
      for l in p.links: l.close()
      p.gone.set()
    fs.on_crash = died
    state.proc = p
    return p
  async def down(p, how):
    """how: restart (in an orderly way), kill, or crash when it is dead already"""
    p.ending = True
    if how == "kill":
      sim.fault("process_kill")
      fs.dead = True
      for l in p.links: l.close()
      p.gone.set()
    for t in p.tasks: t.cancel()
    await asyncio.wait(p.tasks, timeout=10.0)
    if how == "restart":
      sim.fault("process_shutdown")
      stuck = [ type(w).__name__ for w, t in zip(p.workers, p.tasks) if not t.done() ]
      if stuck: raise Violation("stuck", f"{stuck} did not shut down within 10 s")
      await asyncio.sleep(0.1)
      for l in p.links: l.close()
      p.gone.set()
    await asyncio.sleep(0.5)
    if p.inflight:
      for t in p.inflight: t.cancel()
      await asyncio.wait(list(p.inflight))
    if how != "restart" and p.power: fs.power_loss(rng)
    fs.begin()

  def content(n, size): return f"v{n}" + "x" * size
  def parse(kind, d):
    if kind in ("dep", "task", "dash"): return d["label"]
    return d["value"] if kind == "sec" else d["metadata"].get("v", "")
  def body(item, value):
    k = item.kind
    if k == "dep": return { "id": item.id, "label": value }
    if k == "task": return { "id": item.id, "deployment_id": items[("dep", item.i % 2)].id, "task_host_id": "h", "label": value, "config": { "a": [1, "2", None] }, "frontend_config": {}, "inputs": [], "outputs": [] }
    if k == "dash": return { "id": item.id, "deployment_id": items[("dep", item.i % 2)].id, "label": value, "windows": [ { "task_id": items[("task", 0)].id, "x": 0.5, "y": 1, "width": 3.25, "height": 4 } ] }
    return { "id": item.id, "value": value } if k == "sec" else { "name": item.id, "metadata": { "v": value } }
  path = { "dep": "/api/deployment", "task": "/api/task", "dash": "/api/dashboard", "sec": "/secrets/api/secret", "top": "/named-topics/api/named-topic" }
  async def call(c, name, descriptor, b):
    try: return 200, await c.fetch(name, descriptor, b)
    except FetchError as e: return e.status_code, None
  async def secret(c, kind, item, value):
    sm = SecretManagerClient(c)
    id = uuid.UUID(item.id)
    try:
      if kind == "put": return 200, await sm.put_secret(id, value)
      if kind == "del": return 200, await sm.delete_secret(id)
      return 200, { "id": item.id, "value": await sm.resolve_secret(id) }
    except FetchError as e: return e.status_code, None
  async def send(p, u, kind, item, value, by_fetch):
    """One request; (status, result)"""
    c, app = p.users[u]
    k = item.kind
    if k == "sec" and (by_fetch or kind == "get"): return await secret(c, kind, item, value)
    if k == "top" and by_fetch: return await call(c, NetworkAddressNames.NAMED_TOPIC_MANAGER, { "put": "put", "del": "delete", "get": "get" }[kind] + "_named_topic", body(item, value) if kind == "put" else { "name": item.id })
    if kind == "get" and k == "task": # there is no way to ask for a single one
      st, lst = await http(app, "GET", f"/api/deployment/{items[('dep', item.i % 2)].id}/tasks", limit=120.0)
      mine = [ d for d in lst or [] if d["id"] == item.id ]
      return (st, mine[0]) if mine else (404 if st == 200 else st, None)
    url = path[k] + ("" if kind == "put" else "/" + urllib.parse.quote(item.id, safe=""))
    verb = { "put": "POST" if k == "dep" and item.vals[-1] is None else "PUT", "del": "DELETE", "get": "GET" }[kind]
    return await http(app, verb, url, body(item, value) if kind == "put" else None, limit=120.0)
  async def listing(p, u, kind):
    c, app = p.users[u]
    if kind == "dep": st, lst = await http(app, "GET", "/api/deployments", limit=120.0)
    elif kind in ("task", "dash"):
      lst, st = [], 200
      for d in (0, 1):
        s, l = await http(app, "GET", f"/api/deployment/{items[('dep', d)].id}/{'tasks' if kind == 'task' else 'dashboards'}", limit=120.0)
        if s != 200: return s, None
        lst += l
    elif kind == "top": st, lst = await call(c, NetworkAddressNames.NAMED_TOPIC_MANAGER, "list_named_topics", None)
    else:
      lst, st = [], 200
      for it in of("sec"):
        s, d = await secret(c, "get", it, None)
        if s == 200: lst.append(d)
        elif s != FetchErrorStatusCode.NOT_FOUND: return s, None
    if st != 200: return st, None
    out = {}
    for d in lst:
      key = str(d["name"] if kind == "top" else d["id"])
      if key in out: raise Violation("twice", f"{kind} {key} is listed twice")
      out[key] = parse(kind, d)
    unknown = [ key for key in out if key not in [ it.id for it in of(kind) ] ]
    if unknown: raise Violation("unknown-item", f"{kind} {unknown} was never stored")
    return 200, out
  def brief(v): return None if v is None else v[:12] + ("" if len(v) < 13 else f"..({len(v)})")
  def briefs(vs): return [ brief(v) for v in vs ]
  async def change(p, u, n, op):
    _, kind, k, i, size, by_fetch = op
    item = items[(k, i)]
    async with item.lock:
      if p.ending: return
      value = content(n, size) if kind == "put" else None
      was_faults = sum(v for f, v in sim.faults.items() if f.startswith("disk"))
      item.pending = (value,)
      try: st, _ = await send(p, u, kind, item, value, by_fetch)
      except asyncio.CancelledError:
        return # what became of it shows when the process is back
      if p.ending and st != 200: return # it may or may not have been done
      item.pending = ()
      if st == 200:
        item.vals.append(value)
        stored[0] += 1
      elif sum(v for f, v in sim.faults.items() if f.startswith("disk")) == was_faults and not (kind == "del" and item.vals[-1] is None): raise Violation("refused", f"{kind} of {item} answered {st} although nothing is wrong")
  async def read(p, u, n, op):
    _, kind, k, i, _, by_fetch = op
    its = of(k) if kind == "list" else [ items[(k, i)] ]
    since = { it: len(it.vals) - 1 for it in its }
    try: st, d = await (listing(p, u, k) if kind == "list" else send(p, u, "get", its[0], None, by_fetch))
    except asyncio.CancelledError: return
    if p.ending and st != 200: return
    if kind == "list":
      if st != 200: raise Violation("refused", f"listing {k} answered {st}")
      got = { it: d.get(it.id) for it in its }
    else:
      if st != 200 and st not in (400, 404, FetchErrorStatusCode.NOT_FOUND): raise Violation("refused", f"get of {its[0]} answered {st}")
      got = { its[0]: parse(k, d) if st == 200 else None }
    for it, v in got.items():
      allowed = [ *it.vals[since[it]:], *it.pending ]
      if v not in allowed: raise Violation("wrong-value", f"{it} reads {brief(v)}, possible {briefs(allowed)}; all its values {briefs(it.vals)}")
  async def recover(p, how, power):
    """The process is back: what is there now?"""
    for k in KINDS:
      st, got = await asyncio.wait_for(listing(p, 0, k), 200.0)
      if st != 200: raise Violation("refused", f"listing {k} after the start answered {st}")
      for it in of(k):
        v = got.get(it.id)
        allowed = [ *(it.vals[it.base:] if power else it.vals[-1:]), *it.pending ]
        if v not in allowed: raise Violation("lost", f"{it} is {brief(v)} after {'a power loss' if power else how}, possible {briefs(allowed)}; all its values {briefs(it.vals)}")
        it.pending = ()
        it.vals.append(v)
        it.base = len(it.vals) - 1

  def spawn(p, coro):
    t = asyncio.create_task(coro)
    p.inflight.add(t)
    def over(t):
      p.inflight.discard(t)
      if not t.cancelled() and t.exception() is not None: failed.append(t.exception())
    t.add_done_callback(over)
  failed = []
  p = await up()
  p.inflight = set()
  async def cycle(how):
    nonlocal p
    power = p.power
    await down(p, how)
    if failed: raise failed[0]
    p = await up()
    p.inflight = set()
    await recover(p, how, power)
  for n, op in enumerate([ *case["ops"], [0, "end"] ]):
    if n == 0: t0, shift = sim.now, 0.0
    if failed: raise failed[0]
    due = t0 + op[0] + shift
    if op[1] == "end":
      until = sim.now + 150.0
      while p.inflight and not p.gone.is_set():
        if sim.now >= until: raise Violation("no-answer", f"{len(p.inflight)} requests are not answered after 150 s")
        g = asyncio.ensure_future(p.gone.wait())
        await asyncio.wait([ *p.inflight, g ], return_when="FIRST_COMPLETED", timeout=until - sim.now)
        g.cancel()
      break
    if due > sim.now:
      w = asyncio.ensure_future(p.gone.wait())
      await asyncio.wait([ w ], timeout=due - sim.now)
      w.cancel()
    if p.gone.is_set():
      b = sim.now
      await cycle("crash")
      shift += sim.now - b
    kind = op[1]
    if kind in ("put", "del"): spawn(p, change(p, n % len(p.users), n, op))
    elif kind in ("get", "list"): spawn(p, read(p, n % len(p.users), n, op))
    elif kind == "arm":
      fs.arm(op[3], op[2], op[4])
      p.power = p.power or (op[5] and op[2].startswith("crash"))
    elif kind == "full":
      def over(q=p):
        if q is p and not q.ending: fs.full = False
      fs.full = True
      asyncio.get_running_loop().call_later(op[2], over)
    elif kind in ("restart", "kill"):
      p.power = kind == "kill" and op[2]
      b = sim.now
      await cycle(kind)
      shift += sim.now - b
  if failed: raise failed[0]
  if p.gone.is_set(): await cycle("crash")
  fs.armed, fs.full = [], False
  for t in p.tasks:
    if t.done(): raise Violation("ended", f"a service ended: {t}")
  await cycle("restart")
  for it in items.values(): # everything can be changed still
    p.inflight = set()
    op = [0, "put", it.kind, it.i, 5, False]
    await asyncio.wait_for(change(p, 0, 1000, op), 100.0)
  await cycle("restart")
  p.ending = True
  for t in [ *p.tasks, d_task ]: t.cancel()
  await asyncio.wait([ *p.tasks, d_task ], timeout=5.0)
  return { "nontrivial": stored[0] > 0 and state.boots > 3 }


def run(case, keep_log=False):
  @contextlib.contextmanager
  def inside(sim):
    with scratch_dir() as d, disk(sim, d) as fs:
      sim.fs = fs
      yield
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"].get("shuffle", 0) }, inside=inside)
