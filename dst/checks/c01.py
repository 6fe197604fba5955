"""C01: a connection carries whole messages, in order, under fragmentation,
cancellation, garbage and loss of the connection."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.sim import Violation
from dst.simnet import raw_pair

ID = "C01"
RULE = ("seeded case = one byte-stream connection with seeded fragmentation, latency and back-pressure; 1-4 concurrent senders per side, payloads from empty to several times the write buffer "
        "(also ones that contain the frame marker), cancelled sends and receives, garbage between frames, stalls, then a close or reset; non-trivial when at least 5 messages arrived; distinct by execution fingerprint")
REAL = ["streamtasks.connection (RawStreamConnection)", "asyncio streams"]
STUB = ["event loop and clock (simulator)", "sockets (simulated byte streams)"]
SYNC = b"\xb8\x23\xa0\x6f"


def gen(rng, tier="quick"):
  n = [ rng.randint(0, 4), rng.randint(0, 4) ]
  if sum(n) == 0: n[0] = 1
  ops = []
  t = 0.0
  big = rng.random() < 0.4
  cancels = rng.random() < 0.5
  garbage = rng.random() < 0.4
  stalls = rng.random() < 0.4
  for _ in range(rng.randint(8, 50)):
    t += rng.choice([0.0, 0.0, 0.0005, 0.003, 0.02])
    side = rng.choice([ s for s in (0, 1) if n[s] ])
    r = rng.random()
    if r < 0.7:
      size = rng.choice([0, 1, 3, 10, 100, 1000] + ([20000, 70000] if big else []))
      ops.append([round(t, 5), "send", side, rng.randrange(n[side]), size, rng.choice(["fill", "sync", "edge"]), round(rng.random() * 0.01, 5) if cancels and rng.random() < 0.25 else None])
    elif r < 0.8 and cancels: ops.append([round(t, 5), "cancelrecv", side])
    elif r < 0.9 and garbage: ops.append([round(t, 5), "garbage", side, rng.randrange(1 << 30), rng.choice([1, 2, 5, 30])])
    elif r < 0.95 and stalls: ops.append([round(t, 5), "stall"])
    elif stalls: ops.append([round(t, 5), "heal"])
  end = rng.choice(["close0", "close1", "reset", "reset"])
  if rng.random() < 0.3: ops.insert(rng.randrange(len(ops)), [ops[-1][0], end])
  else: ops.append([round(t + 2.0, 5), end])
  ops.sort(key=lambda o: o[0])
  return { "seed": rng.getrandbits(48), "cfg": { "frag": rng.choice([0.0, 0.3, 0.9]), "max_frag": rng.choice([1, 3, 64]), "high_water": rng.choice([200, 16384]),
           "shuffle": rng.choice([0.0, 0.3, 0.8]), "stall_prob": rng.choice([0.0, 0.002]) }, "ops": ops }


def payload(mid, size, kind):
  head = mid.to_bytes(4, "little")
  if kind == "fill": body = bytes((mid * 7 + i) & 0xff for i in range(min(size, 64))) * (size // 64 + 1)
  elif kind == "sync": body = SYNC * (size // 4 + 1)
  else: body = (SYNC[:1] + SYNC) * (size // 5 + 1)
  return head + body[:size]


def clean_garbage(rng, n):
  # no complete frame marker, also not across the border to the next frame
  while True:
    g = bytes(rng.choice([0, 0x23, 0xa0, 0x6f, 0xb8, 0xb8, 0xff, 0x11]) for _ in range(n))
    if (g + SYNC).find(SYNC) == n: return g


async def main(sim, case):
  from streamtasks.connection import RawStreamConnection
  from streamtasks.net import ConnectionClosedError
  cfg = case["cfg"]
  p = sim.net.profile
  p.frag, p.max_frag, p.high_water = cfg["frag"], cfg["max_frag"], cfg["high_water"]
  (ra, wa), (rb, wb), conn = raw_pair(sim, "c")
  ends = [ RawStreamConnection(ra, wa), RawStreamConnection(rb, wb) ]
  writers = [ wa, wb ]
  sent = [ {}, {} ]       # side -> mid -> [payload, lane, state]
  got = [ [], [] ]        # received by side
  closed_seen = [ None, None ]
  queues = {}
  state = { "down_at": None, "down_kind": None }
  nmid = 0
  stalled_at_end = False

  async def lane(side, k):
    q = queues[(side, k)]
    while True:
      mid, data, cancel_after = await q.get()
      rec = sent[side][mid]
      rec[2] = "started"
      task = asyncio.create_task(ends[side].send(data))
      if cancel_after is not None:
        await asyncio.wait([task], timeout=cancel_after)
        if not task.done():
          sim.fault("send_cancelled")
          task.cancel()
      try:
        await task
        rec[2] = "done"
      except asyncio.CancelledError: rec[2] = "cancelled"
      except ConnectionClosedError:
        rec[2] = "closed"
        if state["down_at"] is None: raise Violation("spurious-close", f"send of message {mid} reported a closed connection that was open")

  recv_task = [ None, None ]
  async def receiver(side):
    while True:
      recv_task[side] = asyncio.create_task(ends[side].recv())
      try: data = await recv_task[side]
      except asyncio.CancelledError:
        if asyncio.current_task().cancelling(): raise
        continue
      except ConnectionClosedError:
        closed_seen[side] = sim.now
        if state["down_at"] is None: raise Violation("spurious-close", f"receive on side {side} reported a closed connection that was open")
        return
      got[side].append(bytes(data))

  tasks = [ asyncio.create_task(receiver(s)) for s in (0, 1) ]
  for op in case["ops"]:
    if op[1] == "send": queues.setdefault((op[2], op[3]), asyncio.Queue())
  for (s, k) in sorted(queues): tasks.append(asyncio.create_task(lane(s, k)))
  t0 = sim.now
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    k = op[1]
    if k == "send":
      data = payload(nmid, op[4], op[5])
      sent[op[2]][nmid] = [data, op[3], "queued"]
      queues[(op[2], op[3])].put_nowait((nmid, data, op[6]))
      nmid += 1
    elif k == "cancelrecv":
      t = recv_task[op[2]]
      if t is not None and not t.done():
        sim.fault("recv_cancelled")
        t.cancel()
    elif k == "garbage":
      if state["down_at"] is None:
        sim.fault("garbage_bytes")
        writers[op[2]].write(clean_garbage(sim.rng("garbage", op[3]), op[4]))
    elif k == "stall":
      if state["down_at"] is None: sim.net.stall_conn(conn); stalled_at_end = True
    elif k == "heal": stalled_at_end = False; sim.net.heal_conn(conn)
    else:
      if state["down_at"] is not None: continue
      if k == "close0": state.update(down_at=sim.now, kind=k); sim.net.heal_conn(conn); ends[0].close()
      elif k == "close1": state.update(down_at=sim.now, kind=k); sim.net.heal_conn(conn); ends[1].close()
      else: state.update(down_at=sim.now, kind="reset"); sim.net.reset_conn(conn)
  if state["down_at"] is None:
    sim.net.heal_conn(conn)
    state.update(down_at=sim.now, kind="reset"); sim.net.reset_conn(conn)
  await asyncio.sleep(3.0)
  for t in tasks:
    if t.done() and not t.cancelled() and t.exception(): raise t.exception()
  for s in (0, 1):
    if closed_seen[s] is None: raise Violation("close-unnoticed", f"side {s} still waits for data 3 s after the connection went down ({state['kind']})")
  # sending on a dead connection says so (the first attempt may still be buffered)
  for s in (0, 1):
    for attempt in range(4):
      try: await asyncio.wait_for(ends[s].send(b"late"), 1.0)
      except ConnectionClosedError: break
      except (asyncio.TimeoutError, TimeoutError): raise Violation("send-after-close", f"send on side {s} of a dead connection never returns")
      await asyncio.sleep(0.2)
    else: raise Violation("send-after-close", f"send on side {s} keeps reporting success after the connection went down ({state['kind']})")

  total = 0
  busy = [ o[0] for o in case["ops"] if o[1] in ("send", "garbage", "heal", "stall") ]
  downs = [ o[0] for o in case["ops"] if o[1] in ("close0", "close1", "reset") ]
  settled = bool(downs) and (not busy or max(busy) + 1.5 < downs[0])
  for s in (0, 1):
    peer = 1 - s
    ids = []
    for data in got[s]:
      mid = int.from_bytes(data[:4], "little") if len(data) >= 4 else -1
      rec = sent[peer].get(mid)
      if rec is None: raise Violation("invented", f"side {s} received {data[:20]!r}... ({len(data)} bytes), which was never sent")
      if rec[0] != data: raise Violation("corrupted", f"message {mid}: sent {len(rec[0])} bytes, received {len(data)} different ones")
      ids.append(mid)
    if len(ids) != len(set(ids)): raise Violation("duplicate", f"side {s} received {ids}")
    total += len(ids)
    lanes = {}
    for mid in ids:
      k = sent[peer][mid][1]
      if lanes.get(k, -1) > mid: raise Violation("reordered", f"side {s} received {mid} after {lanes[k]} from the same sender")
      lanes[k] = mid
    # everything sent long enough before the end must have arrived
    if settled and not stalled_at_end:
      for mid in sorted(sent[peer]):
        if sent[peer][mid][2] == "done" and mid not in ids: raise Violation("lost", f"message {mid} (side {peer}) was sent successfully and never arrived; connection was up for 1.5 s more")
        if sent[peer][mid][2] in ("queued", "started"): raise Violation("send-stuck", f"send of message {mid} did not finish although the peer reads everything")
    sim.states.add((len(ids), state["kind"]))
  sim.probe("received", total)
  return { "nontrivial": total >= 5 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.05, "max_steps": 2_000_000 })
