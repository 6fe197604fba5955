"""T01: a started task runs once, as configured, and its true outcome is reported to everybody."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import gen_edges
from dst.sim import Violation
from dst.tasklab import attach, boot_client, make_host, make_tap, settle_call, start_net

ID = "T01"
RULE = ("seeded case = loop-free network with the real discovery worker, task manager and 1-3 task hosts, 3-14 scripted tasks (run for ever, end, fail, end at once, refuse to stop at once, fail or dawdle in creation or setup) "
        "scheduled, started (some twice), cancelled, awaited and queried by 1-3 clients at any time relative to each other; non-trivial when at least three tasks ran; distinct by execution fingerprint")
REAL = ["streamtasks.system.task (TaskManager, TaskHost, TaskManagerClient)", "streamtasks.client", "streamtasks.services.discovery", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "the tasks themselves (scripted)"]
MODES = ["forever", "forever", "forever", "end", "end", "end", "fail", "instant", "instafail", "stubborn", "swallow", "create-fail", "setup-fail", "setup-slow"]
LIMIT = 40.0


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }
  hosts = [ place() for _ in range(rng.randint(1, 3)) ]
  clients = [ place() for _ in range(rng.randint(1, 3)) ]
  ops = []
  slow = 0
  for k in range(rng.randint(3, 14)):
    mode = rng.choice(MODES)
    if mode == "setup-slow":
      slow += 1
      if slow > 2: mode = "forever"
    d = round(rng.choice([0.0, 0.001, 0.004, 0.01, 0.05, 0.5]) * (0.5 + rng.random()), 5)
    t = round(rng.random() * rng.choice([0.05, 0.5, 3.0]), 4)
    story = { "host": rng.randrange(len(hosts)), "mode": mode, "d": d, "by": rng.randrange(len(clients)), "listen": rng.random() < 0.7, "at": t, "acts": [] }
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      story["acts"].append([round(rng.choice([0.0, 0.002, 0.004, 0.008, 0.02, d, d + 0.004, 0.5]) * (0.5 + rng.random()), 5), rng.choice(["cancel", "cancelw", "cancelw", "get", "start"]), rng.randrange(len(clients))])
    if rng.random() < 0.1: story["nostart"] = True
    if rng.random() < 0.3: story["net"] = rng.choice(["setup", "run"])
    ops.append(story)
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "hosts": hosts, "clients": clients, "tm": place(), "disc": { **place(), "at": 0 },
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.0005]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
  from streamtasks.system.task import TaskManager, TaskManagerClient, TaskNotFoundError, TaskStatus
  cfg = case["cfg"]
  switches, d_task, probe = await start_net(sim, cfg)
  tm = TaskManager()
  await attach(sim, switches, tm, cfg["tm"], "tm")
  await asyncio.sleep(0.2)
  workers = [ d_task, asyncio.create_task(tm.run()) ]
  await asyncio.sleep(0.3)
  recs, hosts = [], []
  for i, spec in enumerate(cfg["hosts"]):
    h = make_host(sim, f"host{i}", recs, [ "task_manager" ])
    await attach(sim, switches, h, spec, f"host{i}")
    hosts.append(h)
    workers.append(asyncio.create_task(h.run()))
  clients = []
  for i, spec in enumerate(cfg["clients"]):
    c = await boot_client(sim, switches, spec, f"c{i}")
    tap = make_tap(c)
    await tap.start_recv()
    clients.append((c, TaskManagerClient(c), tap))
  await asyncio.sleep(0.5)
  check = TaskManagerClient(probe)
  status, res = await settle_call(check.list_task_hosts(), LIMIT, "listing the task hosts")
  if status == "err" or sorted(h.id for h in res) != sorted(h.id for h in hosts): raise Violation("hosts", f"listed hosts: {res}")

  class Story: pass
  stories, serial = [], [0]
  async def start(s, n, ci):
    s.starts.append([n, sim.now, None, None, ci])
    me = s.starts[-1]
    r = await settle_call(clients[ci][1].start_task(s.id, { "n": n, "mode": s.op["mode"], "d": s.op["d"], "net": s.op.get("net") }), LIMIT, f"start {n} of task {s.k}")
    me[2], me[3] = sim.now, r
  async def act(s, a):
    await asyncio.sleep(a[0])
    kind, ci = a[1], a[2]
    if kind == "start":
      serial[0] += 1
      return await start(s, 1000 + serial[0], ci)
    t0 = sim.now
    tmc = clients[ci][1]
    if kind == "get": r = await settle_call(tmc.get_task(s.id), LIMIT, f"query of task {s.k}")
    else:
      s.cancels.append([t0, None, kind, None])
      me = s.cancels[-1]
      s.cancel_asked = True
      r = await settle_call(tmc.cancel_task(s.id) if kind == "cancel" else tmc.cancel_task_wait(s.id), LIMIT, f"cancelling task {s.k} ({kind})")
      me[1], me[3] = sim.now, r
      if kind == "cancelw" and r[0] == "ok":
        s.waits.append(r[1])
        if r[1].id != s.id or r[1].status.is_active: raise Violation("cancel-wait", f"waiting for the end of task {s.k} returned {r[1]}")
    if r[0] == "err" and not isinstance(r[1], (FetchError, TaskNotFoundError)): raise r[1]
    if kind == "get": s.gets.append((t0, sim.now, r))
  async def play(k, op):
    await asyncio.sleep(op["at"])
    s = Story()
    s.k, s.op, s.news, s.starts, s.cancels, s.gets, s.waits, s.cancel_asked = k, op, [], [], [], [], [], False
    ci = op["by"]
    _, tmc, _ = clients[ci]
    st, inst = await settle_call(tmc.schedule_task(hosts[op["host"]].id), LIMIT, f"scheduling task {k}")
    if st == "err": raise inst
    if inst.status is not TaskStatus.scheduled or inst.host_id != hosts[op["host"]].id: raise Violation("schedule", f"scheduling task {k} returned {inst}")
    s.id = inst.id
    stories.append(s)
    pump = None
    if op["listen"]:
      rx = tmc.task_receiver([ s.id ])
      await rx.start_recv()
      async def follow():
        while True: s.news.append(await rx.get())
      pump = asyncio.create_task(follow())
      await asyncio.sleep(0.1)
    jobs = [ asyncio.create_task(act(s, a)) for a in op["acts"] ]
    if not op.get("nostart"): jobs.append(asyncio.create_task(start(s, k, ci)))
    for j in jobs: await j
    await asyncio.sleep(6.0)
    if pump: pump.cancel()
  plays = [ asyncio.create_task(play(k, op)) for k, op in enumerate(case["ops"]) ]
  await asyncio.wait(plays)
  for p in plays: p.result()
  await asyncio.sleep(2.0)
  for w in workers:
    if w.done(): raise Violation("service-died", f"a service ended: {w.exception()!r}" if not w.cancelled() else "a service was cancelled")

  ids = [ s.id for s in stories ]
  if len(set(ids)) != len(ids): raise Violation("same-id", "two tasks got the same id")
  ran = 0
  by_n = {}
  for r in recs: by_n.setdefault(r.config["n"], []).append(r)
  for s in stories:
    mode = s.op["mode"]
    runs = []
    for n, t0, t1, (st, res), ci in s.starts:
      objs = by_n.get(n, [])
      if len(objs) > 1: raise Violation("started-twice", f"start {n} of task {s.k} created {len(objs)} tasks")
      rec = objs[0] if objs else None
      if rec and rec.runs: runs.append(rec)
      if rec and rec.host != hosts[s.op["host"]].id: raise Violation("wrong-host", f"task {s.k} was created on {rec.host}")
      if rec and (rec.config["mode"], rec.config["d"]) != (mode, s.op["d"]): raise Violation("wrong-config", f"task {s.k} got the configuration {rec.config}")
      if st == "err":
        if not isinstance(res, FetchError): raise res
        if rec: raise Violation("start-answer", f"start {n} of task {s.k} was answered with {res} but created a task")
        continue
      if not rec: raise Violation("start-answer", f"start {n} of task {s.k} was answered with {res.status} but nothing was created")
      failing = mode in ("create-fail", "setup-fail", "setup-slow")
      if failing:
        if res.status is not TaskStatus.failed or rec.runs: raise Violation("start-failed", f"task {s.k} ({mode}): answer {res.status}, runs {rec.runs}")
        if mode != "setup-slow" and res.error != f"{'create' if mode == 'create-fail' else 'setup'} failed {n}": raise Violation("start-failed", f"task {s.k} ({mode}): reported error {res.error!r}")
      else:
        if rec.runs != 1: raise Violation("runs", f"task {s.k} ({mode}) was started (answer {res.status}) and ran {rec.runs} times")
        if res.metadata.get("n") != n: raise Violation("metadata", f"task {s.k}: metadata {res.metadata}")
        if res.status is not TaskStatus.running and (rec.outcome is None or res.status.value != rec.outcome[0]): raise Violation("start-answer", f"task {s.k}: start was answered with {res.status}, the outcome is {rec.outcome}")
    created = [ r for n, *_ in s.starts for r in by_n.get(n, []) ]
    if len(created) > 1: raise Violation("started-twice", f"task {s.k} was created {len(created)} times (starts {[x[0] for x in s.starts]})")
    if len(s.starts) > 0 and not created and not s.cancel_asked: raise Violation("not-started", f"task {s.k} was never created: {[x[3] for x in s.starts]}")
    rec = runs[0] if runs else None
    ran += rec is not None
    # true outcome
    if rec:
      if rec.outcome is None and mode in ("end", "fail", "instant", "instafail"): raise Violation("harness", "task did not end")
      if rec.outcome is None and any(c[3][0] == "ok" for c in s.cancels): raise Violation("not-cancelled", f"cancelling task {s.k} was acknowledged but it still runs")
      if rec.outcome and rec.outcome[0] == "stopped" and not s.cancel_asked: raise Violation("cancelled-unasked", f"task {s.k} was stopped although nobody asked for it")
      if rec.outcome is None and s.cancels and all(c[0] > s.starts[0][2] for c in s.cancels): raise Violation("not-cancelled", f"cancelling the running task {s.k} failed: {[repr(c[3][1]) for c in s.cancels]}")
      if any(c[0] > s.starts[0][2] and c[3][0] == "err" and isinstance(c[3][1], TaskNotFoundError) and (rec.ended is None or rec.ended > c[1]) for c in s.cancels): raise Violation("not-cancelled", f"task {s.k} runs but cannot be found for cancelling")
    stopped_before = rec is None and any(c[3][0] == "ok" for c in s.cancels)
    final = rec.outcome if rec else None
    if final is None and stopped_before and not created: final = ("stopped", None)
    # what everybody was told
    for w in s.waits:
      if final is None or (w.status.value, w.error) != final: raise Violation("wrong-report", f"whoever waited for task {s.k} was told {w.status.value} {w.error!r}, the outcome is {final}")
    if s.op["listen"]:
      told = [ (x.status.value, x.error) for x in s.news ]
      done = [ x for x in told if x[0] not in ("running", "scheduled") ]
      if final is None:
        if done: raise Violation("wrong-report", f"task {s.k} was reported {told}, but it is {'still running' if rec else 'not started'}")
      elif told[-1:] != [ final ] or len(done) != 1: raise Violation("wrong-report", f"the news about task {s.k} was {told}, the outcome is {final}")
    for c, _, tap in clients:
      ev = [ (kind, st) for kind, i, st in tap.events if i == str(s.id) ]
      over = False
      for kind, st in ev:
        if st in ("running", "scheduled") and over: raise Violation("stale-status", f"a client was told that task {s.k} is {st} after it had been told of its end: {ev}")
        over = over or st not in ("running", "scheduled")
    # what the task manager and the host think of it now
    st, res = await settle_call(check.get_task(s.id), LIMIT, "final query")
    alive = rec is not None and rec.outcome is None
    waiting = rec is None and not created and not stopped_before
    if alive or waiting:
      if st == "err" or res.status is not (TaskStatus.running if alive else TaskStatus.scheduled): raise Violation("wrong-status", f"task {s.k} is {'running' if alive else 'scheduled'}, the task manager says {res}")
    elif st == "ok" or not isinstance(res, FetchError) or res.status_code is not FetchErrorStatusCode.NOT_FOUND: raise Violation("wrong-status", f"task {s.k} is over ({final}), the task manager says {res}")
    if alive != (s.id in hosts[s.op["host"]].tasks): raise Violation("host-table", f"task {s.k} is {'running' if alive else 'over'} but {'not ' if alive else ''}in its host's table of running tasks")
    for r in created: # a task that is over has nothing on the network any more, even if it did not clean up itself
      if r.address is None: continue
      left = [ what for what, there in (("address", any(r.address in sw.addresses for sw in switches)), ("topic", r.topic is not None and any(r.topic in sw.out_topics for sw in switches))) if there ]
      if not alive and left: raise Violation("left-behind", f"task {s.k} ({mode}) is over ({final}) but its {' and '.join(left)} can still be reached")
      if alive and len(left) < 1 + (r.topic is not None): raise Violation("taken-away", f"task {s.k} runs but what can be reached of it is {left}")
  sim.probe("ran", ran)
  sim.states.add(tuple(sorted(s.op["mode"] for s in stories)))
  return { "nontrivial": ran >= 3 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1 })
