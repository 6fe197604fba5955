"""T02: the task manager knows exactly the hosts that are there; the tasks of a host end with it."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import gen_edges
from dst.sim import Violation
from dst.tasklab import attach, boot_client, make_host, settle_call, start_net

ID = "T02"
RULE = ("seeded case = loop-free network with the real discovery worker and task manager (started before or after the hosts), 1-4 task hosts that start, shut down, crash and come back under the same id, "
        "tasks started, cancelled and watched on them at any time, watchers of host registrations; settle points; non-trivial when at least two hosts came or went; distinct by execution fingerprint")
REAL = ["streamtasks.system.task (TaskManager, TaskHost, TaskManagerClient)", "streamtasks.client", "streamtasks.services.discovery", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "the tasks themselves (scripted)"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }
  hosts = [ { **place(), "kind": "queue", "at": rng.choice([0.0, 0.0, round(rng.random() * 2, 3)]) } for _ in range(rng.randint(1, 4)) ]
  for spec, who in zip(hosts, rng.sample([ (k, n) for k in ("AlphaHost", "BetaHost") for n in ("north", "south") ], len(hosts))): spec["who"] = who
  clients = [ place() for _ in range(rng.randint(1, 3)) ]
  ops, up, t = [], [True] * len(hosts), 3.0
  crashes = rng.random() < 0.4
  dead = 0
  for _ in range(rng.randint(6, 30)):
    t += rng.choice([0.0, 0.0, 0.001, 0.003, 0.01, 0.3, 1.2])
    h, r = rng.randrange(len(hosts)), rng.random()
    if r < 0.4: ops.append([round(t, 4), "task", h, rng.choice(["forever", "forever", "stubborn", "swallow", "end", "setup-wait"]), round(rng.choice([0.001, 0.01, 0.1]) * (0.5 + rng.random()), 4), rng.randrange(len(clients)), rng.random() < 0.7])
    elif r < 0.5: ops.append([round(t, 4), "cancel", rng.random(), rng.randrange(len(clients))])
    elif r < 0.6: ops.append([round(t, 4), "list", rng.randrange(len(clients))])
    elif r < 0.65: ops.append([round(t, 4), "register", h])
    elif r < 0.75:
      t += 8.0
      ops.append([round(t, 4), "settle"])
      t += 0.1
    elif up[h]:
      if rng.random() < 0.4: t += 0.3 # let it get somewhere first
      kill = crashes and rng.random() < 0.5 and dead < 2
      dead += kill
      ops.append([round(t, 4), "kill" if kill else "down", h]); up[h] = False
    else: ops.append([round(t, 4), "up", h]); up[h] = True
  for h in range(len(hosts)): # crashed hosts come back in the end
    if not up[h] and rng.random() < 0.6: ops.append([round(t, 4), "up", h]); t += 0.01
  ops.append([round(t + 8.0, 4), "settle"])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "hosts": hosts, "clients": clients, "tm": { **place(), "at": rng.choice([0.0, 0.0, round(rng.random() * 2, 3)]) }, "disc": { **place(), "at": 0 },
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.0005]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
  from streamtasks.client.discovery import wait_for_address_name
  from streamtasks.system.task import TaskManager, TaskManagerClient, TaskNotFoundError, TaskStatus
  cfg = case["cfg"]
  # requests are served one after another, and a host that has gone may cost the task manager a few seconds for each
  LIMIT = 20.0 + 8.0 * sum(1 for op in case["ops"] if op[1] in ("task", "cancel"))
  switches, d_task, probe = await start_net(sim, cfg)
  t0 = sim.now
  recs, services = [], [ d_task ]
  class H: pass
  hosts = []
  for i, spec in enumerate(cfg["hosts"]):
    h = H()
    h.i, h.id, h.spec, h.host, h.task, h.gen, h.up, h.changes, h.history, h.registered, h.busy = i, None, spec, None, None, 0, False, 0, [], 0, asyncio.Lock()
    h.name = f"host{i}"
    h.id = make_host(sim, h.name, [], [], real_id=spec["who"]).id
    hosts.append(h)
  async def host_up(h):
    async with h.busy:
      if h.up: return
      h.up = True
      h.gen += 1
      h.changes += 1
      h.host = make_host(sim, h.name, recs, [ "task_manager" ], real_id=h.spec["who"])
      h.link = await attach(sim, switches, h.host, h.spec, f"h{h.i}.{h.gen}")
      h.history.append(("up", sim.now))
      h.up_at = sim.now
      def registered(gen=h.gen):
        if gen == h.gen and h.up:
          h.registered = gen
          h.history.append(("registered", sim.now))
      h.host.on_registered = registered
      async def go():
        await asyncio.sleep(0.2)
        await h.host.run()
      h.task = asyncio.create_task(go())
  async def host_down(h, kill):
    async with h.busy:
      if not h.up: return
      h.up = False
      h.changes += 1
      h.history.append(("kill" if kill else "down" if h.registered == h.gen and not h.host.registering else "down-early", sim.now))
      if kill:
        sim.fault("host_crash")
        h.link.close()
        await asyncio.sleep(0.001)
      else: sim.fault("host_shutdown")
      h.host.leaving = True
      h.task.cancel()
      await asyncio.wait([ h.task ], timeout=6.0)
      if not h.task.done(): raise Violation("host-stuck", f"host {h.i} does not shut down")
      if not h.task.cancelled() and h.task.exception() is not None: raise Violation("host-shutdown", f"host {h.i} failed while shutting down: {h.task.exception()!r}")
      if h.history[-1][0] == "down" and (h.host.overlapped or h.host.registering): h.history[-1] = ("down-early", h.history[-1][1])
      h.history.append(("gone", sim.now))
      if not kill: await asyncio.sleep(0.1) # its last messages are delivered before it is cut off
      h.link.close()
  async def begin(h):
    await asyncio.sleep(h.spec["at"])
    await host_up(h)
  begins = [ asyncio.create_task(begin(h)) for h in hosts ]
  tm = TaskManager()
  await attach(sim, switches, tm, cfg["tm"], "tm")
  async def run_tm():
    await asyncio.sleep(0.2 + cfg["tm"]["at"])
    await tm.run()
  services.append(asyncio.create_task(run_tm()))
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c = await boot_client(sim, switches, spec, f"c{i}")
    clients.append((c, TaskManagerClient(c)))
  await wait_for_address_name(probe, "task_manager")
  check = TaskManagerClient(probe)
  for _, tmc in clients: await wait_for_address_name(tmc.client, "task_manager")
  news = []   # (kind, host id)
  rx_r, rx_u = check.task_host_registered_receiver(), check.task_host_unregistered_receiver()
  await rx_r.start_recv()
  await rx_u.start_recv()
  async def follow(rx, kind):
    while True:
      x = await rx.get()
      news.append((kind, x.id, sim.now))
  services += [ asyncio.create_task(follow(rx_r, "registered")), asyncio.create_task(follow(rx_u, "unregistered")) ]

  class T: pass
  tasks = []
  async def task(n, h, mode, d, ci, listen):
    s = T()
    s.n, s.h, s.gen, s.mode, s.news, s.id, s.cancels, s.answer, s.h_changes = n, h, h.gen, mode, [], None, 0, None, h.changes
    s.up0 = h.up
    tmc = clients[ci][1]
    st, inst = await settle_call(tmc.schedule_task(h.id), LIMIT, f"scheduling task {n}")
    if st == "err": raise inst
    s.id = inst.id
    tasks.append(s)
    if listen:
      rx = tmc.task_receiver([ s.id ])
      await rx.start_recv()
      async def follow():
        while True: s.news.append(await rx.get())
      services.append(asyncio.create_task(follow()))
      await asyncio.sleep(0.1)
      s.listen = True
    else: s.listen = False
    s.asked = sim.now
    s.answer = await settle_call(tmc.start_task(s.id, { "n": n, "mode": mode, "d": d }), LIMIT, f"start of task {n} on host {h.i}")
    s.answered = sim.now
    if s.answer[0] == "err" and not isinstance(s.answer[1], FetchError): raise s.answer[1]
  async def cancel(f, ci):
    known = [ s for s in tasks if s.answer and s.answer[0] == "ok" ]
    if not known: return
    s = known[int(f * len(known))]
    s.cancels += 1
    st, r = await settle_call(clients[ci][1].cancel_task(s.id), LIMIT, f"cancelling task {s.n}")
    if st == "err" and not isinstance(r, FetchError): raise r
  async def register(h):
    if h.up and h.host.ready.is_set() and getattr(h.host, "client", None) and h.registered == h.gen: await asyncio.wait([ asyncio.create_task(h.host.register("task_manager")) ], timeout=5)

  def unheard(h, since=0.0):
    """Whether the host crashed (after `since`), or went away while it was registering, and has not registered again since."""
    if not h.up and h.host is not None and h.host.registering: return True
    crashed = False
    for k, at in h.history:
      if k == "registered": crashed = False
      elif k in ("kill", "down-early") and at >= since: crashed = True
    return crashed

  async def settle(n):
    st, lst = await settle_call(check.list_task_hosts(), LIMIT, "listing the hosts")
    if st == "err": raise lst
    listed = { x.id: x for x in lst }
    for h in hosts:
      if not h.history or unheard(h): continue # nobody told the task manager
      since = sim.now - h.history[-1][1]
      if since < 3.0: continue
      mine = [ k for k, i, _ in news if i == h.id ]
      if h.up:
        if h.id not in listed: raise Violation("host-missing", f"host {h.i} is up since {since:.1f} s but not listed")
        if listed[h.id].address != h.host.client.address: raise Violation("host-stale", f"host {h.i} is listed with address {listed[h.id].address}, it has {h.host.client.address}")
        st, one = await settle_call(check.get_task_host(h.id), LIMIT, "host query")
        if st == "err" or one.address != h.host.client.address or one.metadata.get("name") != h.name: raise Violation("host-query", f"host {h.i}: {one}")
        if h.up_at > watch_from and mine[-1:] != [ "registered" ]: raise Violation("host-news", f"host {h.i} came up while being watched, the news was {mine}")
      else:
        if h.id in listed: raise Violation("host-listed", f"host {h.i} shut down {since:.1f} s ago and is still listed")
        if "registered" in mine and mine[-1] != "unregistered": raise Violation("host-news", f"host {h.i} went down while being watched, the news was {mine}")
    for s in tasks:
      h = s.h
      obj = [ r for r in recs if r.config["n"] == s.n ]
      if len(obj) > 1: raise Violation("started-twice", f"task {s.n} was created {len(obj)} times")
      rec = obj[0] if obj else None
      if s.answer is None: continue
      st, got = await settle_call(check.get_task(s.id), LIMIT, "task query")
      over = rec is None or rec.outcome is not None
      if rec is not None and rec.runs and rec.outcome is None:
        if h.up and rec.begun > h.up_at:
          if s.answer[0] == "ok" and s.answer[1].status is TaskStatus.running and (st == "err" or got.status is not TaskStatus.running): raise Violation("task-lost", f"task {s.n} runs on host {h.i}, the task manager says {got}")
        else: raise Violation("task-survived", f"task {s.n} still runs although host {h.i} shut down: {h.history}")
      gone = [ k for k, at in h.history if k in ("down", "down-early", "kill") and at >= s.asked ]
      if over and s.answer[0] == "ok":
        if unheard(h, s.asked): continue # nobody told the task manager yet
        if st == "ok": raise Violation("task-kept", f"task {s.n} is over ({rec.outcome if rec else 'not created'}, answer {s.answer[1].status}, host {h.history}), the task manager still says {got.status}")
        if got.status_code is not FetchErrorStatusCode.NOT_FOUND: raise Violation("task-query", f"task {s.n}: {got!r}")
        if s.listen and rec is not None and rec.runs and s.answer[1].status is not TaskStatus.failed: # whoever started it was told
          told = [ x.status for x in s.news ]
          if not told or told[-1].is_active: raise Violation("task-news", f"task {s.n} on host {h.i} is over ({rec.outcome}, {h.history}), the news was {[ x.value for x in told ]}")
          want = rec.outcome[0]
          if not gone and told[-1].value != want: raise Violation("task-news", f"task {s.n} {want}, the news was {[ x.value for x in told ]}")
    for h in hosts:
      if h.up and h.host.ready.is_set():
        alive = sum(1 for r in recs if r.host == h.name and r.runs and r.outcome is None and r.begun > h.up_at)
        if len(h.host.tasks) != alive: raise Violation("host-table", f"host {h.i} runs {alive} tasks, its table has {len(h.host.tasks)}")

  watch_from = sim.now
  tm_up = [ sim.now ]
  jobs = []
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    k = op[1]
    if k == "task": jobs.append(asyncio.create_task(task(n, hosts[op[2]], op[3], op[4], op[5], op[6])))
    elif k == "cancel": jobs.append(asyncio.create_task(cancel(op[2], op[3])))
    elif k == "list":
      async def listing(ci):
        st, r = await settle_call(clients[ci][1].list_task_hosts(), LIMIT, "listing the hosts")
        if st == "err": raise r
      jobs.append(asyncio.create_task(listing(op[2])))
    elif k == "up": jobs.append(asyncio.create_task(host_up(hosts[op[2]])))
    elif k in ("down", "kill"): jobs.append(asyncio.create_task(host_down(hosts[op[2]], k == "kill")))
    elif k == "register": jobs.append(asyncio.create_task(register(hosts[op[2]])))
    elif k == "settle":
      pend = [ j for j in jobs if not j.done() ]
      if pend: await asyncio.wait(pend, timeout=LIMIT * 3)
      for j in jobs:
        if not j.done(): raise Violation("no-answer", "an operation did not return")
        j.result()
      await asyncio.sleep(4.0)
      await settle(n)
  await asyncio.wait(begins)
  for w in services:
    if w.done(): raise Violation("service-died", f"a service ended: {w.exception()!r}" if not w.cancelled() else "a service was cancelled")
  changes = sum(h.changes for h in hosts) - len(hosts)
  sim.probe("host_changes", changes)
  sim.probe("tasks", len(tasks))
  sim.states.add(tuple(tuple(k for k, _ in h.history) for h in hosts))
  return { "nontrivial": changes >= 2 and len(tasks) > 0 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1 })
