"""T07: HTTP and websocket traffic over the network arrives whole, in order, once, and at the right application."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import gen_edges
from dst.sim import Violation
from dst.tasklab import attach, boot_client, make_host, start_net
from dst.weblab import scope, scratch_dir

ID = "T07"
RULE = ("seeded case = loop-free network with the real discovery worker, task manager and web backend; web applications directly on a client, in task hosts and behind registered paths, hosts and path handlers that "
        "restart; 1-3 users with concurrent HTTP requests and websockets whose applications echo, answer early, in pieces, fail, push, close or wait, and whose browsers disconnect at any time; "
        "non-trivial when at least three exchanges were answered; distinct by execution fingerprint")
REAL = ["streamtasks.asgi (ASGIAppRunner, ASGIProxyApp)", "streamtasks.asgiserver", "streamtasks.system.task_web (TaskWebBackend, TaskWebPathHandler)", "streamtasks.system.task (TaskManager, TaskHost)", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)", "the browser and HTTP server (an ASGI caller that is as strict as uvicorn)", "the web applications (scripted)"]

HTTP_MODES = ["echo", "echo", "echo", "early", "fail-before", "fail-mid", "wait"]
WS_MODES = ["echo", "echo", "echo", "push", "refuse", "fail", "close-after"]


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }
  n_hosts, n_paths = rng.randint(1, 2), rng.randint(0, 2)
  users = [ place() for _ in range(rng.randint(1, 3)) ]
  def target():
    r = rng.random()
    if r < 0.35: return ["app"]
    if r < 0.65: return ["host", rng.randrange(n_hosts)]
    if r < 0.75: return ["static", rng.randrange(n_hosts)]
    if r < 0.8: return ["none", rng.choice(["/task-host/nohost/do/1", "/nothing/here", "/task/70000000-0000-4000-8000-000000000000/x"])]
    if n_paths: return ["path", rng.randrange(n_paths)]
    return ["app"]
  def pieces(): return [ rng.choice([0, 1, 10, 1000, 1000, 40000]) for _ in range(rng.choice([0, 1, 1, 2, 5])) ]
  ops, t = [], 2.0
  up = { ("host", i): True for i in range(n_hosts) } | { ("path", i): True for i in range(n_paths) }
  restarts = rng.random() < 0.5
  for _ in range(rng.randint(5, 30)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.003, 0.02, 0.2, 1.0])
    u, r = rng.randrange(len(users)), rng.random()
    pause = rng.choice([0.0, 0.0, 0.001, 0.01, 0.1])
    gone = round(rng.choice([0.0, 0.01, 0.05, 0.2]) * rng.random(), 4) if rng.random() < 0.2 else None
    if restarts and r < 0.12:
      k = rng.choice(sorted(up))
      if up[k] or rng.random() < 0.5: t += 4.0
      ops.append([round(t, 4), u, "down" if up[k] else "up", *k])
      up[k] = not up[k]
      if rng.random() < 0.6: t += 4.0
    elif r < 0.65: ops.append([round(t, 4), u, "http", target(), rng.choice(HTTP_MODES), rng.choice(["GET", "POST", "PUT"]), pieces(), pieces(), pause, gone])
    else: ops.append([round(t, 4), u, "ws", target(), rng.choice(WS_MODES), pieces(), rng.randint(1, 3), pause, gone])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "hosts": [ { **place(), "kind": "queue" } for _ in range(n_hosts) ], "paths": [ { **place(), "kind": "queue" } for _ in range(n_paths) ], "users": users,
           "app": place(), "tm": place(), "web": place(), "disc": { **place(), "at": 0 }, "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.0005]) }, "ops": ops }


def blob(n, i, size): return bytes((n * 31 + i * 7 + j * (1 + n % 5)) % 256 for j in range(size))


class Protocol(RuntimeError): pass


async def main(sim, case):
  from streamtasks.asgi import ASGIAppRunner, ASGIProxyApp, asgi_default_http_error_handler
  from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, transport_context_handler, path_rewrite_handler
  from streamtasks.client.discovery import wait_for_address_name
  from streamtasks.client.fetch import FetchError
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.task import TaskManager
  from streamtasks.system.task_web import PathRegistrationFrontend, TaskWebBackend, TaskWebPathHandler
  cfg = case["cfg"]
  switches, d_task, probe = await start_net(sim, cfg)
  services, recs = [ d_task ], []
  tm, web = TaskManager(), TaskWebBackend()
  await attach(sim, switches, tm, cfg["tm"], "tm")
  await attach(sim, switches, web, cfg["web"], "web")
  async def later(w):
    await asyncio.sleep(0.2)
    await w.run()
  services += [ asyncio.create_task(later(tm)), asyncio.create_task(later(web)) ]

  class X: pass
  exchanges = {}
  def make_handler(where):
    @transport_context_handler
    async def handler(ctx):
      n = int(ctx.params["n"])
      x = exchanges[n]
      x.calls.append(where())
      x.seen = { "path": ctx.path, "method": getattr(ctx, "method", None), "query": ctx.scope["query_string"], "headers": [ tuple(h) for h in ctx.scope["headers"] ] }
      x.active += 1
      try:
        if isinstance(ctx, HTTPContext): await serve_http(ctx, x)
        elif isinstance(ctx, WebsocketContext): await serve_ws(ctx, x)
      finally:
        x.active -= 1
        x.left = sim.now
    return handler
  async def serve_http(ctx, x):
    if x.mode in ("echo", "fail-before", "wait"):
      body = b""
      while not ctx.body.ended:
        body += await ctx.body.read()
        if x.pause: await asyncio.sleep(x.pause)
      x.body = body
    if x.mode == "fail-before": raise RuntimeError("scripted failure")
    if x.mode == "wait":
      while ctx.connected: await ctx._wreceive()
      return
    writer = await ctx.respond(200 + x.n % 4, [ (b"x-n", str(x.n).encode()), (b"x-bin", bytes([ x.n % 256 ])) ])
    for i, p in enumerate(x.answer):
      if x.mode == "fail-mid" and i == len(x.answer) // 2: raise RuntimeError("scripted failure")
      writer.write(p)
      await writer.flush()
      if x.pause: await asyncio.sleep(x.pause)
    if x.mode == "fail-mid": raise RuntimeError("scripted failure")
    await writer.close()
    if x.mode == "early": x.body = b""
  async def serve_ws(ctx, x):
    if x.mode == "refuse": return await ctx.close(1008)
    if x.mode == "push":
      await ctx.accept()
      for i in range(len(x.send) * x.k):
        await ctx.send_message(x.reply(x.send[i // x.k], i))
        if x.pause: await asyncio.sleep(x.pause)
      return await ctx.close()
    i = 0
    async for m in ctx.messages():
      x.received.append(m)
      if x.mode == "fail" and len(x.received) > len(x.send) // 2: raise RuntimeError("scripted failure")
      for _ in range(x.k):
        await ctx.send_message(x.reply(m, i))
        i += 1
      if x.pause: await asyncio.sleep(x.pause)
      if x.mode == "close-after" and len(x.received) > len(x.send) // 2: return await ctx.close()

  def make_app(where):
    app = ASGIServer()
    app.add_handler(asgi_default_http_error_handler)
    router = ASGIRouter()
    app.add_handler(router)
    router.add_transport_route(make_handler(where), "/do/{n}")
    return app

  # applications
  app_client = await boot_client(sim, switches, cfg["app"], "app")
  services.append(asyncio.create_task(ASGIAppRunner(app_client, make_app(lambda: ("app", 0, 0))).run()))
  places = {}
  async def host_up(p):
    if p.worker is not None: return
    p.gen += 1
    gen = p.gen
    where = lambda: (*p.key, gen)
    if p.key[0] == "host":
      w = make_host(sim, f"host{p.key[1]}", recs, [ NetworkAddressNames.TASK_MANAGER ])
      w.extra = { "file:/info.txt": f"info {p.key[1]} {gen}", "file:/info.json": "{}", "file:/d.txt": f"data:text/plain,a%20b{gen}" }
      async def routes(router): router.add_transport_route(make_handler(where), "/do/{n}")
      w.routes = routes
    else:
      class LabPath(TaskWebPathHandler):
        async def run_inner(self): await ASGIAppRunner(self.client, make_app(where)).run()
      w = LabPath(f"/p{p.key[1]}/", PathRegistrationFrontend(path="std:x", label=f"gen{gen}"))
      w.id = f"path{p.key[1]}"
    p.link = await attach(sim, switches, w, p.spec, f"{p.key[0]}{p.key[1]}.{gen}")
    p.task = asyncio.create_task(later(w))
    p.worker, p.changed = w, sim.now
  async def host_down(p):
    if p.worker is None: return
    sim.fault("worker_shutdown")
    p.changed = sim.now
    w, p.worker = p.worker, None
    p.task.cancel()
    await asyncio.wait([ p.task ], timeout=6.0)
    if not p.task.done(): raise Violation("worker-stuck", f"{p.key} does not shut down")
    if not p.task.cancelled() and p.task.exception() is not None: raise p.task.exception()
    await asyncio.sleep(0.1)
    p.link.close()
    p.changed = sim.now
  for kind, specs in (("host", cfg["hosts"]), ("path", cfg["paths"])):
    for i, spec in enumerate(specs):
      p = X()
      p.key, p.spec, p.worker, p.gen, p.changed, p.busy = (kind, i), spec, None, 0, 0.0, asyncio.Lock()
      places[(kind, i)] = p
      await host_up(p)
  await wait_for_address_name(probe, NetworkAddressNames.TASK_MANAGER_WEB)
  users = []
  for i, spec in enumerate(cfg["users"]):
    c = await boot_client(sim, switches, spec, f"u{i}")
    await wait_for_address_name(c, NetworkAddressNames.TASK_MANAGER_WEB)
    users.append((ASGIProxyApp(c, NetworkAddressNames.TASK_MANAGER_WEB), ASGIProxyApp(c, app_client.address)))
  await asyncio.sleep(1.0)
  t0 = sim.now - 2.0

  def url(x):
    k = x.target[0]
    if k == "app": return users[x.u][1], f"/do/{x.n}"
    if k == "host": return users[x.u][0], f"/task-host/host{x.target[1]}/do/{x.n}"
    if k == "path": return users[x.u][0], f"/p{x.target[1]}/do/{x.n}"
    if k == "static": return users[x.u][0], f"/task-host/host{x.target[1]}/{ ['info.txt', 'd.txt', 'nofile.txt'][x.n % 3] }"
    return users[x.u][0], x.target[1]
  def settled(x):
    """The place the exchange goes to, when it was there from well before it until now; False when it was not; None when it never changes."""
    p = places.get(({ "static": "host" }.get(x.target[0], x.target[0]), x.target[1])) if len(x.target) > 1 and isinstance(x.target[1], int) else None
    if p is None: return None
    if p.changed > x.t0 - 2.0: return False
    q = X()
    q.key, q.gen, q.worker = p.key, p.gen, p.worker
    return q
  async def call(x, app, path, kind, method, inbox, send):
    sc = scope(kind, path, method, [ (b"content-type", b"application/octet-stream"), (b"x-user", bytes([ 200, x.n % 256 ])), (b"x-user", b"2") ])
    sc["query_string"] = f"n={x.n}&a=%20b".encode()
    async def receive():
      e = await inbox.get()
      if e["type"].endswith(".disconnect"): inbox.put_nowait(e)
      return e
    x.task = asyncio.create_task(app(sc, receive, send))
    if x.gone is not None:
      await asyncio.wait([ x.task ], timeout=x.gone)
      if not x.task.done():
        x.disconnected = sim.now
        sim.fault("browser_disconnect")
        inbox.put_nowait({ "type": f"{kind}.disconnect", "code": 1001 })
    waiting = kind == "http" and x.mode == "wait" or kind == "websocket" and x.mode == "echo"
    if waiting and x.gone is None and x.target[0] not in ("none", "static"):
      enough = asyncio.create_task(x.enough.wait())
      await asyncio.wait([ enough, x.task ], timeout=15.0, return_when="FIRST_COMPLETED")
      enough.cancel()
      x.disconnected = sim.now
      inbox.put_nowait({ "type": f"{kind}.disconnect", "code": 1001 })
    await asyncio.wait([ x.task ], timeout=20.0)
    where = x.place = settled(x)
    if not x.task.done():
      if where is False: # nothing is promised while the other end comes and goes
        x.task.cancel()
        x.lost = True
        return False
      raise Violation("no-end", f"exchange {x.n} ({x.mode} to {x.target}) has not ended after 20 s, got {len(x.out)} events, {'disconnected' if x.disconnected else 'still connected'}")
    if x.task.cancelled(): raise Violation("no-end", f"exchange {x.n} was cancelled from inside")
    if where is False:
      x.lost = True
      return False
    e = x.task.exception()
    if e is not None:
      if isinstance(e, FetchError): return True
      raise e
    return True
  def strict(x, kind):
    """Complains as uvicorn does when the application breaks the protocol; quietly drops what comes after a disconnect."""
    state = { "started": False, "ended": False }
    async def send(event):
      t = event["type"]
      x.out_at = sim.now
      if x.disconnected: return
      if t == "http.response.start":
        if state["started"]: raise Protocol("second start")
        state["started"] = True
      elif t == "http.response.body":
        if not state["started"] or state["ended"]: raise Protocol("body out of place")
        state["ended"] = not event.get("more_body", False)
      elif t == "websocket.accept":
        if state["started"]: raise Protocol("second accept")
        state["started"] = True
      elif t == "websocket.send":
        if not state["started"] or state["ended"]: raise Protocol("message out of place")
      elif t == "websocket.close":
        if state["ended"]: raise Protocol("second close")
        state["ended"] = True
      x.out.append(event)
      if kind == "websocket" and x.mode == "echo" and sum(1 for o in x.out if o["type"] == "websocket.send") >= len(x.send) * x.k: x.enough.set()
    return send

  async def do_http(n, u, target, mode, method, req, resp, pause, gone):
    x = X()
    exchanges[n] = x
    x.n, x.u, x.target, x.mode, x.pause, x.gone, x.t0 = n, u, target, mode, pause, gone, sim.now
    x.calls, x.seen, x.body, x.active, x.out, x.disconnected, x.lost, x.enough, x.left = [], None, None, 0, [], None, False, asyncio.Event(), None
    x.answer = [ blob(n, 100 + i, s) for i, s in enumerate(resp) ]
    parts = [ blob(n, i, s) for i, s in enumerate(req) ] if method != "GET" else []
    inbox = asyncio.Queue()
    async def feed():
      for i, p in enumerate(parts or [ b"" ]):
        inbox.put_nowait({ "type": "http.request", "body": p, "more_body": i + 1 < len(parts) })
        if pause: await asyncio.sleep(pause)
    feeder = asyncio.create_task(feed())
    if mode == "wait": asyncio.get_running_loop().call_later(1.0, x.enough.set)
    app, path = url(x)
    if not await call(x, app, path, "http", method, inbox, strict(x, "http")): return
    await feeder
    what = f"exchange {n} ({mode} {method} to {target})"
    started = x.out[:1] and x.out[0]["type"] == "http.response.start"
    status = x.out[0]["status"] if started else None
    body = b"".join(e.get("body", b"") for e in x.out[1:])
    ended = len(x.out) > 1 and not x.out[-1].get("more_body", False)
    x.ok = False
    if target[0] == "none" or target[0] == "static" and n % 3 == 2:
      if not x.disconnected and not (status == 404 and ended): raise Violation("not-found", f"{what} to nowhere was answered with {status}")
      return
    if target[0] == "static":
      if x.disconnected or method != "GET": return
      p = x.place
      if p.worker is None:
        if status != 404: raise Violation("not-found", f"{what}, which has gone, was answered with {status}")
        return
      want = [ f"info {target[1]} {p.gen}".encode(), f"a b{p.gen}".encode() ][n % 3]
      if status != 200 or body != want or not ended: raise Violation("stale-content", f"{what} got {status} {body!r}, the host offers {want!r}")
      return
    p = x.place
    if p is not None and p.worker is None: # it is not there
      if x.calls: raise Violation("wrong-app", f"{what} reached {x.calls}, which has gone")
      if not x.disconnected and not status == 404 and ended: raise Violation("not-found", f"{what}, which has gone, was answered with {x.out}")
      return
    want_where = ("app", 0, 0) if p is None else (*p.key, p.gen)
    if len(x.calls) > 1: raise Violation("called-twice", f"{what} reached applications {x.calls}")
    if x.calls and x.calls != [ want_where ]: raise Violation("wrong-app", f"{what} reached {x.calls}, it belongs to {want_where}")
    if not x.calls:
      if not x.disconnected: raise Violation("not-delivered", f"{what} did not reach its application, answer {status}")
      return
    hs = x.seen["headers"]
    if x.seen["method"] != method or x.seen["path"] != f"/do/{n}" or x.seen["query"] != f"n={n}&a=%20b".encode() or [ v for k, v in hs if k == b"x-user" ] != [ bytes([ 200, n % 256 ]), b"2" ]:
      raise Violation("wrong-scope", f"{what}: the application saw {x.seen}")
    sent = b"".join(parts)
    if x.body is not None and mode != "early" and x.body != sent and not (x.disconnected and sent.startswith(x.body)): raise Violation("wrong-body", f"{what}: the application received {len(x.body)} bytes, {len(sent)} were sent")
    if x.disconnected: return
    if mode == "fail-before":
      if status != 500 or not ended: raise Violation("failure-answer", f"{what} failed, the answer was {status}")
      return
    full = b"".join(x.answer)
    if status != 200 + n % 4: raise Violation("wrong-answer", f"{what}: status {status}")
    if [ v for k, v in map(tuple, x.out[0]["headers"]) if k == b"x-bin" ] != [ bytes([ n % 256 ]) ]: raise Violation("wrong-answer", f"{what}: headers {x.out[0]['headers']}")
    if mode == "fail-mid":
      if not full.startswith(body): raise Violation("wrong-answer", f"{what}: {len(body)} bytes are not the beginning of the answer")
      return
    if body != full or not ended: raise Violation("wrong-answer", f"{what}: answer of {len(body)} bytes, {len(full)} were written, {'ended' if ended else 'not ended'}")
    x.ok = True

  async def do_ws(n, u, target, mode, sizes, k, pause, gone):
    if target[0] == "static": target = ["host", target[1]]
    x = X()
    exchanges[n] = x
    x.n, x.u, x.target, x.mode, x.pause, x.gone, x.t0, x.k = n, u, target, mode, pause, gone, sim.now, k
    x.calls, x.seen, x.active, x.out, x.disconnected, x.lost, x.received, x.enough, x.ok, x.left = [], None, 0, [], None, False, [], asyncio.Event(), False, None
    x.send = [ blob(n, i, s) if i % 2 else blob(n, i, s).decode("latin1") for i, s in enumerate(sizes) ]
    x.reply = lambda m, i: m + (b"" if isinstance(m, bytes) else "") if i % 2 else m[:1]
    if not x.send: x.enough.set()
    inbox = asyncio.Queue()
    inbox.put_nowait({ "type": "websocket.connect" })
    async def feed():
      for m in x.send:
        inbox.put_nowait({ "type": "websocket.receive", "bytes": m if isinstance(m, bytes) else None, "text": m if isinstance(m, str) else None })
        if pause: await asyncio.sleep(pause)
    feeder = asyncio.create_task(feed())
    if target[0] == "none": x.gone = 1.0
    app, path = url(x)
    if not await call(x, app, path, "websocket", None, inbox, strict(x, "websocket")): return
    await feeder
    what = f"exchange {n} (websocket {mode} to {target})"
    if target[0] == "none": return
    p = x.place
    if p is not None and p.worker is None: # it is not there
      if x.calls: raise Violation("wrong-app", f"{what} reached {x.calls}, which has gone")
      if not x.disconnected and not any(e["type"] == "websocket.close" for e in x.out): raise Violation("not-found", f"{what}, which has gone, was answered with {x.out}")
      return
    want_where = ("app", 0, 0) if p is None else (*p.key, p.gen)
    if len(x.calls) > 1: raise Violation("called-twice", f"{what} reached applications {x.calls}")
    if x.calls and x.calls != [ want_where ]: raise Violation("wrong-app", f"{what} reached {x.calls}, it belongs to {want_where}")
    if not x.calls:
      if not x.disconnected: raise Violation("not-delivered", f"{what} did not reach its application")
      return
    if x.received != x.send[:len(x.received)]: raise Violation("wrong-messages", f"{what}: the application received {[ len(m) for m in x.received ]}, sent were {[ len(m) for m in x.send ]}")
    got = [ e["text"] if e.get("text") is not None else e.get("bytes") for e in x.out if e["type"] == "websocket.send" ]
    source = x.send if mode == "push" else x.received
    want = [ x.reply(source[i // k], i) for i in range(len(source) * k) ]
    if got != want[:len(got)]: raise Violation("wrong-messages", f"{what}: the browser received {[ len(m) for m in got ]}, sent were {[ len(m) for m in want ]}")
    if x.gone is None:
      closed = [ e for e in x.out if e["type"] == "websocket.close" ]
      if mode == "echo" and (len(x.received) != len(x.send) or len(got) != len(want)): raise Violation("lost-messages", f"{what}: {len(x.received)} of {len(x.send)} messages arrived, {len(got)} of {len(want)} came back")
      if mode == "push" and len(got) != len(want): raise Violation("lost-messages", f"{what}: {len(got)} of {len(want)} messages arrived")
      if mode in ("push", "refuse") and not closed: raise Violation("not-closed", f"{what}: the application closed, the browser did not see it")
      if mode == "close-after" and x.send and not closed: raise Violation("not-closed", f"{what}: the application closed, the browser did not see it")
    x.ok = True

  jobs = []
  async def change(p, up):
    async with p.busy: await (host_up if up else host_down)(p)
  for n, (at, u, k, *a) in enumerate(case["ops"]):
    if t0 + at > sim.now: await asyncio.sleep(t0 + at - sim.now)
    if k == "http": jobs.append(asyncio.create_task(do_http(n, u, *a)))
    elif k == "ws":
      if a[1] in ("fail", "close-after") and not a[2]: a[2] = [ 3 ] # they act on a message
      jobs.append(asyncio.create_task(do_ws(n, u, *a)))
    elif k in ("up", "down"):
      p = places[(a[0], a[1])]
      p.changed = sim.now
      jobs.append(asyncio.create_task(change(p, k == "up")))
  if jobs: await asyncio.wait(jobs, timeout=300.0)
  for j in jobs:
    if not j.done(): raise Violation("no-end", "an exchange has not ended")
    j.result()
  await asyncio.sleep(3.0)
  for x in exchanges.values():
    if x.active and not x.lost: raise Violation("app-left", f"the application of exchange {x.n} ({x.mode} to {x.target}) was never told that its browser has gone")
  for w in services:
    if w.done(): raise Violation("service-died", f"a service ended: {w.exception()!r}" if not w.cancelled() else "a service was cancelled")
  for p in places.values():
    if p.worker is not None and p.task.done(): raise Violation("service-died", f"{p.key} ended: {p.task.exception()!r}")
  ok = sum(1 for x in exchanges.values() if getattr(x, "ok", False))
  sim.probe("answered", ok)
  sim.probe("undecided", sum(1 for x in exchanges.values() if x.lost))
  sim.probe("exchanges", len(exchanges))
  sim.states.add(tuple((x.target[0], x.mode, len(x.out)) for x in exchanges.values())[:40])
  return { "nontrivial": ok >= 3 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  with scratch_dir():
    return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1 })
