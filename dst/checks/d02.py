"""D02: address names resolve to their newest registration; nobody waits for a registered name in vain."""
from __future__ import annotations

import asyncio

from dst.checks.d01 import start_discovery
from dst.core import execute
from dst.lab import EdgeRt, client_link, connect_edge, gen_edges, make_switches
from dst.sim import Violation

ID = "D02"
RULE = ("seeded case = loop-free network with the real discovery worker, 2-6 services that register, withdraw and re-register 1-3 names (also the same name, overlapping), and 4-30 look-ups and waits "
        "by fresh and by long-lived clients at any time relative to them, some given up midway, some by the name of a message's destination; non-trivial when at least 3 look-ups had a determined answer; distinct by execution fingerprint")
REAL = ["streamtasks.services.discovery (DiscoveryWorker)", "streamtasks.client.discovery (wait_for_address_name, address_name_context)", "streamtasks.client.broadcast/signal/fetch", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "sockets (simulated byte streams)"]
G = 0.3   # a withdrawal is a one-way signal: it takes effect within this time
PATIENCE = 0.6 # whoever waits for a name learns of its registration within this time


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  n_names = rng.randint(1, 3)
  svcs = [ { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) } for _ in range(rng.randint(2, 6)) ]
  ops = []
  t = 1.0
  for _ in range(rng.randint(8, 40)):
    t += rng.choice([0.0, 0.0, 0.0, 0.001, 0.003, 0.01, 0.05, 0.4, 0.8])
    r = rng.random()
    name = rng.randrange(n_names)
    if r < 0.06 and n_names > 1 and len(svcs) > 1: # a service with two names loses one of them to another service, then withdraws it
      a, b = rng.sample(range(len(svcs)), 2)
      other = rng.choice([ k for k in range(n_names) if k != name ])
      d = round(0.6 + rng.random() * 0.5, 4)
      ops.append([round(t, 4), "reg", a, name, d, rng.random() < 0.1])
      ops.append([round(t, 4), "reg", a, other, round(rng.choice([0.3, 4.0, 4.0]), 4), False])
      ops.append([round(t + 0.3, 4), "reg", b, name, 4.0, False])
      t += d + 0.5 + rng.random()
      ops.append([round(t, 4), rng.choice(["resolve", "send"]), name, rng.randrange(n_sw), "queue", None, int(rng.random() < 0.7)])
    elif r < 0.35: ops.append([round(t, 4), "reg", rng.randrange(len(svcs)), name, round(rng.choice([0.0, 0.002, 0.02, 0.5, 1.5]) * (0.5 + rng.random()), 4), rng.random() < 0.1])
    else:
      ops.append([round(t, 4), rng.choice(["wait", "wait", "resolve", "resolve", "send"]), name, rng.randrange(n_sw), rng.choice(["queue", "delay"]), round(rng.random() * 0.05, 4) if rng.random() < 0.15 else None, int(rng.random() < 0.7)])
      if ops[-1][1] == "wait" and rng.random() < 0.4:
        t += rng.choice([0.0002, 0.0005, 0.001, 0.002, 0.004]) * (0.5 + rng.random())
        ops.append([round(t, 5), "reg", rng.randrange(len(svcs)), name, round(rng.choice([0.0, 0.02, 0.5]) * (0.5 + rng.random()), 4), False])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "svcs": svcs, "names": n_names, "disc": { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]), "at": 0 },
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.0, 0.001]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.client.discovery import address_name_context, wait_for_address_name, wait_for_topic_signal
  from streamtasks.client.receiver import Receiver
  from streamtasks.net.messages import AddressedMessage
  from streamtasks.net.serialization import RawData
  from streamtasks.services.constants import NetworkTopics
  cfg = case["cfg"]
  switches = make_switches(sim, cfg)
  for i, s in enumerate(cfg["edges"]): await connect_edge(sim, switches, EdgeRt(s, i))
  worker, d_task = await start_discovery(sim, switches, cfg["disc"])

  class Inbox(Receiver):
    def on_message(self, m):
      if isinstance(m, AddressedMessage) and m.port == 55: boxes[self.svc].append(m.data.data)
  boxes = [ [] for _ in cfg["svcs"] ]
  svcs, addr_of = [], {}
  for i, spec in enumerate(cfg["svcs"]):
    c = Client(await client_link(sim, switches[spec["sw"]], spec["kind"], f"s{i}"))
    c.start()
    await wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)
    await c.request_address()
    b = Inbox(c)
    b.svc = i
    await b.start_recv()
    svcs.append(c)
    addr_of[c.address] = i

  regs = []  # [name, svc, registered_start, registered_done, withdraw_start, withdrawn]
  async def reg(svc, name, dur, fail):
    rec = [name, svc, sim.now, None, None, None]
    regs.append(rec)
    c = svcs[svc]
    try:
      async with address_name_context(c, f"name{name}"):
        rec[3] = sim.now
        got = await c.resolve_address_name(f"name{name}")
        if got not in addr_of: raise Violation("wrong-address", f"the registrant of name {name} resolves it to {got}")
        await asyncio.sleep(dur)
        rec[4] = sim.now
        if fail:
          sim.fault("registrant_fails")
          raise ConnectionError("registrant failed")
    except ConnectionError: pass
    rec[5] = sim.now
  def truth(name, a, b):
    """Possible answers of a look-up that ran from a to b."""
    poss = set()
    rs = [ r for r in regs if r[0] == name ]
    for r in rs:
      # can r be what was registered last, and not withdrawn, at some instant within [a, b]?
      lo, hi = r[2], (r[5] + G if r[5] is not None else float("inf"))
      if lo > b or hi < a: continue
      if any(o is not r and r[3] is not None and r[3] < o[2] and o[3] is not None and o[3] < a for o in rs): continue
      poss.add(svcs[r[1]].address)
    def surely_live(r):
      if r[3] is None or r[3] >= a or may_end_any(rs, r, b): return False
      over = [ o for o in rs if o is not r and o[2] <= b and (o[3] is None or o[3] > r[2]) ]
      return not any(may_end_any(rs, o, b) for o in over)
    if not any(surely_live(r) for r in rs): poss.add(None)
    return poss
  def may_end(o, b): return o[4] is not None and o[4] <= b
  def may_end_any(rs, r, b):
    # the name may be gone when this registration, or another one of the same address, is being withdrawn
    return any(svcs[o[1]].address == svcs[r[1]].address and o[4] is not None and o[4] <= b and o[2] <= b for o in rs)

  determined = 0
  async def look(n, op):
    nonlocal determined
    _, kind, name, sw, lk, give = op[:6]
    c = lookers[n] if n in lookers else await boot(f"l{n}", sw, lk)
    start = sim.now
    nm = f"name{name}"
    if kind == "resolve":
      try: got = await asyncio.wait_for(c.resolve_address_name(nm), 5.0 if give is None else give)
      except (asyncio.TimeoutError, TimeoutError):
        if give is None: raise Violation("unanswered", f"look-up {n} of name {name} got no answer within 5 s")
        sim.fault("lookup_given_up")
        return
      poss = truth(name, start, sim.now)
      determined += len(poss) == 1
      if got not in poss: raise Violation("wrong-address", f"look-up {n} of name {name} between {start - t0:.3f} and {sim.now - t0:.3f}: got {got} (service {addr_of.get(got)}), possible {poss}; registrations {show(name)}")
    elif kind == "wait":
      task = asyncio.create_task(wait_for_address_name(c, nm))
      await asyncio.wait([ task ], timeout=give)
      if not task.done() and give is not None:
        sim.fault("lookup_given_up")
        task.cancel()
        await asyncio.wait([ task ])
        return
      waits.append([n, name, start, task, c])
      await asyncio.wait([ task ])
      if task.cancelled(): return
      got = task.result()
      rs = [ svcs[r[1]].address for r in regs if r[0] == name and r[2] <= sim.now and (r[5] is None or r[5] + G >= start) ]
      determined += 1
      mine = [ r for r in regs if r[0] == name ]
      def steady(r): # the one registration from before since on, long enough to be learnt of
        since = max(r[3], start)
        return since + PATIENCE < sim.now and (r[4] is None or r[4] > since + PATIENCE) and not any(o is not r and o[2] <= since + PATIENCE and (o[5] is None or o[5] + G >= r[2]) for o in mine)
      over = [ r for r in mine if r[3] is not None and steady(r) ]
      if over: raise Violation("waits-in-vain", f"look-up {n} waited for name {name} from {start - t0:.4f} to {sim.now - t0:.4f}; it was registered long before that ended: {show(name)}")
      if got not in rs: raise Violation("wrong-address", f"waiting for name {name} from {start - t0:.3f} to {sim.now - t0:.3f} gave {got}, registered were {rs}; {show(name)}")
    else:
      poss0 = truth(name, start, start)
      if None in poss0: return
      task = asyncio.create_task(c.send_to((nm, 55), RawData([n])))
      await asyncio.wait([ task ], timeout=5.0)
      if not task.done(): raise Violation("unanswered", f"sending to name {name} did not finish")
      poss = truth(name, start, sim.now)
      if task.exception():
        if None in poss: return
        raise task.exception()
      await asyncio.sleep(1.0)
      if len(poss) == 1 and None not in poss:
        determined += 1
        svc = addr_of[next(iter(poss))]
        if boxes[svc].count([n]) != 1: raise Violation("not-delivered", f"a message sent to name {name} did not reach service {svc}, the only one registered; {show(name)}")
        if any([n] in b for k, b in enumerate(boxes) if k != svc): raise Violation("misdelivered", f"a message sent to name {name} reached another service than {svc}")
  async def boot(name, sw, lk):
    c = Client(await client_link(sim, switches[sw], lk, name))
    c.start()
    await wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)
    await c.request_address()
    return c
  waits = []
  lookers = {} # those that are there before they look
  for n, op in enumerate(case["ops"]):
    if op[1] != "reg" and len(op) > 6 and op[6]: lookers[n] = asyncio.create_task(boot(f"l{n}", op[3], op[4]))
  for n in list(lookers): lookers[n] = await lookers[n]
  t0 = sim.now - 1.0
  def show(name): return [ [ r[1] ] + [ None if x is None else round(x - t0, 4) for x in r[2:] ] for r in regs if r[0] == name ]
  tasks = []
  for n, op in enumerate(case["ops"]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    tasks.append(asyncio.create_task(reg(op[2], op[3], op[4], op[5]) if op[1] == "reg" else look(n, op)))
  await asyncio.sleep(8.0)
  for n, name, start, task, _ in waits:
    seen = [ r for r in regs if r[0] == name and r[2] > start and r[3] is not None ]
    if not task.done() and seen: raise Violation("waits-in-vain", f"look-up {n} waits for name {name} since {start - t0:.4f}; it was registered while it did: {show(name)}")
  # a last, stable registration of every name ends every wait
  ctxs = []
  final = {}
  for name in range(cfg["names"]):
    final[name] = svcs[name % len(svcs)].address
    regs.append(rec := [name, name % len(svcs), sim.now, None, None, None])
    cm = address_name_context(svcs[name % len(svcs)], f"name{name}")
    await asyncio.wait_for(cm.__aenter__(), 5.0)
    rec[3] = sim.now
    ctxs.append(cm)
  await asyncio.sleep(2.0)
  for n, name, start, task, _ in waits:
    if not task.done(): raise Violation("waits-in-vain", f"look-up {n} still waits for name {name}, which has been registered for 2 s; {show(name)}")
  for t in tasks:
    if t.done() and not t.cancelled() and t.exception(): raise t.exception()
    if not t.done(): raise Violation("operation-stuck", "a registration or look-up did not finish")
  # and once everything is withdrawn nothing is left, for fresh clients and for those that registered it
  for name, cm in enumerate(ctxs):
    regs[-cfg["names"] + name][4] = sim.now
    await cm.__aexit__(None, None, None)
    regs[-cfg["names"] + name][5] = sim.now
  await asyncio.sleep(1.0)
  c = Client(await client_link(sim, switches[0], "queue", "last"))
  c.start()
  await c.request_address()
  for name in range(cfg["names"]):
    got = await c.resolve_address_name(f"name{name}")
    if got is not None: raise Violation("withdrawn-name-resolves", f"name {name} still resolves to {got}; {show(name)}")
    own = svcs[name % len(svcs)]
    got = await own.resolve_address_name(f"name{name}")
    if got is not None: raise Violation("withdrawn-name-resolves", f"name {name} still resolves to {got} at the client that withdrew it; {show(name)}")
  if d_task.done(): raise d_task.exception() or Violation("discovery-stopped", "")
  sim.probe("determined_lookups", determined)
  sim.states.add((len(regs), determined))
  return { "nontrivial": determined >= 3 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.1 })
