"""L04: synchronised inputs are handed over in timestamp and priority order, without deadlock."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.lab import client_link
from dst.sim import Violation

ID = "L04"
RULE = ("seeded case = 2-5 topics read through one synchroniser (plain, or with priorities) by readers of different speed, 10-60 timed messages with rising, equal, falling and missing timestamps, pauses and resumptions, "
        "late topics; settle points; non-trivial when at least two topics had messages handed over and at least 5 hand-overs were ordered; distinct by execution fingerprint")
REAL = ["streamtasks.client.topic (SynchronizedInTopic, SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer)", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop and clock (simulator)", "delayed links"]


def gen(rng, tier="quick"):
  n = rng.randint(2, 5)
  prio = [ rng.choice([0, 0, 1, 2]) for _ in range(n) ] if rng.random() < 0.6 else None
  ops, last = [], [0] * n
  clock = 10
  t = 0.5
  pauses = rng.random() < 0.5
  paused = [False] * n
  for _ in range(rng.randint(10, 60)):
    t += rng.choice([0.0, 0.0, 0.0, 0.0, 0.001, 0.004, 0.02])
    i = rng.randrange(n)
    r = rng.random()
    if r < 0.08: ops.append([round(t, 4), "settle"]); t += 1.5
    elif r < 0.18 and pauses:
      paused[i] = not paused[i]
      ops.append([round(t, 4), "pause", i, paused[i]])
      if not paused[i] and rng.random() < 0.5: # what a resumed topic sends may be as old as what the slowest of the others sent last
        t += 0.01
        ops.append([round(t, 4), "settle"])
        t += 1.5
        others = [ l for j, l in enumerate(last) if j != i and l > 0 ]
        if others:
          ts = rng.randint(min(others), max(others))
          ops.append([round(t, 4), "data", i, ts])
          last[i] = max(last[i], ts)
    elif r < 0.22 and not paused[i]: ops.append([round(t, 4), "data", i, None])
    else:
      if paused[i]: continue # producers do not publish while paused
      clock += rng.choice([0, 0, 0, 1, 3])
      q = rng.random()
      if q < 0.75: ts = max(last[i], clock)
      elif q < 0.85: ts = last[i]
      elif q < 0.93: ts = max(0, last[i] - rng.randint(1, 3))
      else: ts = clock + rng.randint(1, 6)
      if ts >= last[i]: last[i] = ts
      ops.append([round(t, 4), "data", i, ts + (0.5 if rng.random() < 0.1 else 0)])
  return { "seed": rng.getrandbits(48), "cfg": { "topics": n, "prio": prio, "speed": [ rng.choice([0.0, 0.0, 0.001, 0.01]) for _ in range(n) ], "kind": rng.choice(["queue", "delay"]), "shuffle": rng.choice([0.0, 0.3, 0.8]) }, "ops": ops }


async def main(sim, case):
  from streamtasks.client import Client
  from streamtasks.client.topic import PrioritizedSequentialInTopicSynchronizer, SequentialInTopicSynchronizer
  from streamtasks.net import Switch
  from streamtasks.net.messages import TopicControlData
  from streamtasks.net.serialization import RawData
  cfg = case["cfg"]
  n = cfg["topics"]
  sw = Switch()
  pub, sub = Client(await client_link(sim, sw, "queue", "p")), Client(await client_link(sim, sw, cfg["kind"], "s"))
  pub.start(); sub.start()
  if cfg["prio"]:
    sync = PrioritizedSequentialInTopicSynchronizer()
    for i, p in enumerate(cfg["prio"]): sync.set_priority(50 + i, p)
  else: sync = SequentialInTopicSynchronizer()
  outs = [ pub.out_topic(50 + i) for i in range(n) ]
  for o in outs: await o.start(); await o.set_registered(True)
  ins = [ sub.sync_in_topic(50 + i, sync) for i in range(n) ]
  for x in ins: await x.start(); await x.set_registered(True)

  handed = []            # (time order index, topic, ts, seq) or (.., "p", paused)
  busy = [ None ] * n    # ts being processed by the reader of the topic
  known = [ False ] * n
  got = [ [] for _ in range(n) ]
  lastts = [ None ] * n
  sent = [ [] for _ in range(n) ]   # (seq, ts)
  count = 0
  async def reader(i):
    nonlocal count
    while True:
      d = await ins[i].recv_data_control()
      if isinstance(d, TopicControlData):
        known[i] = not d.paused
        busy[i] = None
        if d.paused: lastts[i] = None
        handed.append((i, "p", d.paused))
        if ins[i].is_paused != d.paused: raise Violation("pause-state", f"topic {i}")
        continue
      ts, seq = int(d.data["timestamp"]), d.data["seq"]
      if d.data["topic"] != i: raise Violation("cross-topic", f"{d.data} on topic {i}")
      count += 1
      for j in range(n):
        if j == i or not known[j]: continue
        # a live topic that is still behind has nothing older to deliver, or this came too early
        if cfg["prio"] and cfg["prio"][j] > cfg["prio"][i] and busy[j] == ts: raise Violation("priority", f"topic {i} (priority {cfg['prio'][i]}) was handed the message with timestamp {ts} while topic {j} (priority {cfg['prio'][j]}) was still processing that timestamp")
      handed.append((i, ts, seq, tuple(known), tuple(l is not None for l in lastts)))
      got[i].append(seq)
      known[i] = True
      lastts[i] = ts
      busy[i] = ts
      if cfg["speed"][i]: await asyncio.sleep(cfg["speed"][i])
      busy[i] = None
  readers = [ asyncio.create_task(reader(i)) for i in range(n) ]
  await asyncio.sleep(0.3)

  def check_order():
    for a in range(len(handed)):
      if handed[a][1] == "p": continue
      i, ts, seq, kn, data = handed[a]
      forgot = set() # topics that paused since: they may start again anywhere
      for b in range(a + 1, len(handed)):
        j = handed[b][0]
        if handed[b][1] == "p": forgot.add(j)
        if j in forgot: continue
        if j == i:
          if handed[b][1] < ts: raise Violation("reordered", f"topic {i}: timestamp {handed[b][1]} after {ts}")
          continue
        if not kn[j]: continue
        if handed[b][1] < ts: raise Violation("too-early", f"topic {i} was handed timestamp {ts} before topic {j} was handed {handed[b][1]}, although topic {j} was live")
        if cfg["prio"] and data[j] and cfg["prio"][j] > cfg["prio"][i] and handed[b][1] == ts and not any(h[0] == j and h[1] == ts for h in handed[:a]):
          raise Violation("priority", f"topic {i} (priority {cfg['prio'][i]}) was handed timestamp {ts} before topic {j} (priority {cfg['prio'][j]})")
  def valid(i):
    out, last = [], 0
    for seq, ts in sent[i]:
      if seq is None:
        if ts: last = 0    # a pause forgets the timestamps
        continue
      if ts is None or int(ts) < last: continue
      last = int(ts)
      out.append((seq, int(ts)))
    return out
  def check_progress():
    pend = {}
    for i in range(n):
      v = valid(i)
      if [ s for s, _ in v[:len(got[i])] ] != got[i]: 
        raise Violation("wrong-messages", f"topic {i}: handed over {got[i]}, to be handed over {[ s for s, _ in v ]}")
      if len(v) > len(got[i]): pend[i] = v[len(got[i])][1]
    if not pend: return
    lo = min(pend.values())
    i = min(k for k in pend if pend[k] == lo)
    blockers = [ j for j in range(n) if j not in pend and known[j] and (lastts[j] is None or lastts[j] < lo) ]
    if not blockers: raise Violation("deadlock-in-sync", f"topic {i} waits with timestamp {lo}; no live topic is behind it (pending {pend}, last {lastts}, live {known})")

  ever_paused = set()
  resumed = {}  # topic: what its clock was set to by its last resume at the most, once that has been taken in
  certain = [] # (topic, seq) sent after that, at least as new
  t0 = sim.now - 0.5
  seq = 0
  for op in case["ops"] + [ [case["ops"][-1][0] + 0.1 if case["ops"] else 1.0, "settle"] ]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    for r in readers:
      if r.done(): raise r.exception()
    if op[1] == "data":
      seq += 1
      m = { "seq": seq, "topic": op[2] }
      if op[3] is not None: m["timestamp"] = op[3]
      sent[op[2]].append((seq, op[3]))
      if op[2] in resumed and op[3] is not None and int(op[3]) >= resumed[op[2]]:
        resumed[op[2]] = int(op[3])
        certain.append((op[2], seq))
      await outs[op[2]].send(RawData(m))
    elif op[1] == "pause":
      if outs[op[2]].is_paused != op[3]:
        sent[op[2]].append((None, op[3]))
        ever_paused.add(op[2])
        resumed.pop(op[2], None)
        await outs[op[2]].set_paused(op[3])
    else:
      await asyncio.sleep(1.2)
      check_order()
      for i in ever_paused:
        # its reader has been told of the resume, all it was sent since has been handed over
        h = [ x for x in handed if x[0] == i ]
        if i in resumed or not h or h[-1][1] == "p" and h[-1][2] or outs[i].is_paused: continue
        if sent[i][-1][0] is not None or sum(x[1] == "p" for x in h) != sum(s is None for s, _ in sent[i]): continue # what is sent before it has taken the resume in is not judged
        tops = [ max(int(ts) for s, ts in sent[j] if s is not None and ts is not None) for j in range(n) if j != i and j not in ever_paused and got[j] ]
        if tops: resumed[i] = min(tops)
      # messages behind a pause or resume of a blocked topic are judged at the end
      if not any(s is None for l in sent for s, _ in l): check_progress()
  # everybody moves on: all that is left comes out
  top = max([ int(ts) for l in sent for s, ts in l if s is not None and ts is not None ] + [0]) + 10
  for i in range(n):
    if outs[i].is_paused:
      sent[i].append((None, False))
      await outs[i].set_paused(False)
    seq += 1
    sent[i].append((seq, top))
    await outs[i].send(RawData({ "seq": seq, "topic": i, "timestamp": top }))
  await asyncio.sleep(3.0)
  for r in readers:
    if r.done(): raise r.exception()
  check_order()
  for i, s in certain:
    if s not in got[i]: raise Violation("lost", f"topic {i}: message {s} of {sent[i]} was never handed over though it is not older than what another topic had reached when topic {i} resumed; handed over {got[i]}")
  for i in range(n):
    if seq_missing := [ s for s in valid_min(sent[i]) if s not in got[i] ]: raise Violation("lost", f"topic {i}: messages {seq_missing} of {sent[i]} were never handed over; handed over {got[i]}")
    if got[i] != sorted(set(got[i])): raise Violation("duplicate", f"topic {i}: {got[i]}")
    stray = set(got[i]) - { s for s, ts in sent[i] if s is not None and ts is not None }
    if stray: raise Violation("invented", f"topic {i}: {stray}")
  sim.probe("handed_over", count)
  sim.states.add((count, n))
  return { "nontrivial": count >= 5 and sum(bool(g) for g in got) >= 2 }


def valid_min(l):
  """Messages that must come out whatever a resume set the topic's clock to: at least as new as everything before."""
  out, top = [], 0
  paused = False
  for s, ts in l:
    if s is None:
      paused = True
      continue
    if ts is None: continue
    if int(ts) >= top:
      top = int(ts)
      if not paused: out.append(s)
  # after a resume only the closing message is certain
  if l and l[-1][0] is not None and l[-1][0] not in out: out.append(l[-1][0])
  return out


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": case["cfg"].get("shuffle", 0) })
