"""S08: what a mixer puts out is what its tracks hold for that time, nothing lost, repeated or shifted."""
from __future__ import annotations

import asyncio

from dst import native
from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, Hand, freeze, gen_net
from dst.medialab import thread_queues
from dst.sim import Violation

ID = "S08"
RULE = ("seeded case = loop-free network, one of audio mixer (synchronised or not, 1-3 tracks, gaps, overlaps and repeats, buffers kept back, loud samples) or video mixer (1-3 tracks with transparency, background colour), 10-40 messages per run in bursts, "
        "tracks late by delayed links, pauses, malformed messages; non-trivial when at least 5 messages came out; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.media (audiomixer, videomixer)", "streamtasks.media (audio, util.AudioSequencer, video_perf built from the tree's C++)", "streamtasks.system.task (Task, SyncTask)", "streamtasks.client.topic (synchronised topics)", "streamtasks.net", "numpy"]
STUB = ["event loop, clock (simulator)", "worker threads and their queues (simulator's baton)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }
JUNK = [ "text", [1], {}, { "timestamp": 5 }, { "data": b"1234" }, { "timestamp": "x", "data": b"1234" }, { "timestamp": 7, "data": [1] }, "size" ]


def gen(rng, tier="quick"):
  n = rng.choice([1, 2, 2, 2, 3])
  kind = rng.choice(["audio", "audio", "video"])
  ops, t = [], 0.0
  base = rng.choice([1000, 1700000000000])
  if kind == "audio":
    exact = rng.random() < 0.5
    conf = { "sample_format": rng.choice(["s16", "s16", "s32", "flt"]), "rate": rng.choice([1000, 8000, 32000]), "channels": rng.choice([1, 1, 2]), "max_stretch_ratio": rng.choice([1.0, 1.1]) if exact else 1.0, "synchronized": rng.random() < 0.6 }
    conf["buffer_keep_size"] = rng.choice([0, 0, 0, 5]) * conf["rate"] // 1000
    clock = [ base + rng.choice([0, 0, 7, 40]) for _ in range(n) ]
    last = [ 0 ] * n
    pauses = rng.random() < 0.3
    for _ in range(rng.randint(10, 40)):
      t += rng.choice([0.0, 0.0, 0.001, 0.004, 0.03, 0.4 if rng.random() < 0.2 else 0.0])
      i, r = rng.randrange(n), rng.random()
      if r < 0.1 and pauses: ops.append([round(t, 4), "pause", i, rng.random() < 0.5])
      elif r < 0.2: ops.append([round(t, 4), "junk", i, rng.randrange(len(JUNK))])
      else:
        d = rng.choice([1, 2, 5, 10, 20, 33])
        if not exact and r > 0.75: clock[i] += rng.choice([1, 3, 50] if pauses else [1, 3, 50, -min(d, 5), -d])
        if conf["synchronized"]: clock[i] = max(clock[i], last[i]) # what lies before the last message is not handed over
        last[i] = clock[i]
        ops.append([round(t, 4), "data", i, clock[i], d, rng.randrange(1 << 20)])
        clock[i] += d
  else:
    conf = { "width": rng.choice([1, 2, 3]), "height": 2, "pixel_format": rng.choice(["bgra", "rgba", "argb", "abgr"]), "rate": rng.choice([1, 30]), "bgcolor_hex": rng.choice(["#000000", "#000000", "#Ff8000"]), "synchronized": rng.random() < 0.7 }
    clock = base
    for _ in range(rng.randint(10, 40)):
      t += rng.choice([0.0, 0.0, 0.001, 0.004, 0.03, 0.4 if rng.random() < 0.2 else 0.0])
      i, r = rng.randrange(n), rng.random()
      if r < 0.1: ops.append([round(t, 4), "pause", i, rng.random() < 0.5])
      elif r < 0.2: ops.append([round(t, 4), "junk", i, rng.randrange(len(JUNK))])
      elif r < 0.35: ops.append([round(t, 4), "settle"])
      else:
        clock += rng.choice([0, 1, 33])
        ops.append([round(t, 4), "data", i, clock - rng.choice([0, 0, 0, 20]), 0, rng.randrange(1 << 20)])
  net = gen_net(rng, n)
  if kind == "video": net["shuffle"] = 0.0 # the worker thread hands its results over with one task each
  return { "seed": rng.getrandbits(48), "cfg": { **net, "kind": kind, "n": n, "conf": conf }, "ops": ops }


def build(kind, conf, n, client):
  native.load()
  tracks = [ { "in_topic": IN0 + i } for i in range(n) ]
  if kind == "audio":
    from streamtasks.system.tasks.media.audiomixer import AudioMixerConfig, AudioMixerTask
    return AudioMixerTask(client, AudioMixerConfig.model_validate({ "out_topic": OUT0, "audio_tracks": tracks, **conf }))
  from streamtasks.system.tasks.media.videomixer import VideoMixerConfig, VideoMixerTask
  return VideoMixerTask(client, VideoMixerConfig.model_validate({ "out_topic": OUT0, "video_tracks": tracks, **conf }))


DT = { "s16": "i2", "s32": "i4", "flt": "f4" }


def samples(conf, d, x):
  import numpy as np
  r = np.random.default_rng(x)
  n, dt = conf["rate"] * d // 1000, np.dtype(DT[conf["sample_format"]])
  if dt.kind == "f": return (r.random((n, conf["channels"])) * 2 - 1).astype(dt)
  hi = np.iinfo(dt).max if x % 4 == 0 else np.iinfo(dt).max // 4
  return r.integers(-hi, hi, (n, conf["channels"])).astype(dt)


class Track:
  """The samples of one track by their place in time; what is there already stays."""
  def __init__(self, rate, channels): self.rate, self.channels, self.start, self.buf = rate, channels, None, []
  def add(self, ts, a):
    import numpy as np
    if self.start is None: self.start, self.buf = ts, a
    else:
      have = (ts - self.start) * self.rate // 1000
      if have > len(self.buf): self.buf = np.concatenate((self.buf, np.zeros((have - len(self.buf), self.channels), self.buf.dtype)))
      self.buf = np.concatenate((self.buf, a[len(self.buf) - have:]))
  @property
  def end(self): return self.start + len(self.buf) * 1000 / self.rate
  def at(self, ts, n):
    import numpy as np
    out = np.zeros((n, self.channels), self.buf.dtype)
    o = (ts - self.start) * self.rate // 1000
    lo, hi = max(0, o), min(len(self.buf), o + n)
    if hi > lo: out[lo - o:hi - o] = self.buf[lo:hi]
    return out


async def audio(sim, case, f):
  import numpy as np
  cfg, conf, n = case["cfg"], case["cfg"]["conf"], case["cfg"]["n"]
  rate, ch = conf["rate"], conf["channels"]
  dt = np.dtype(DT[conf["sample_format"]])
  tracks = [ Track(rate, ch) for _ in range(n) ]
  flexible, shown = [False] * n, [False] * n
  t0 = sim.now
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    i = op[2]
    if op[1] == "pause":
      if op[3]: flexible[i] = True
      shown[i] = op[3]
      await f.pause(i, op[3])
    elif op[1] == "junk":
      j = JUNK[op[3]]
      await f.send(i, { "timestamp": tracks[i].end if tracks[i].start is not None else 3, "data": b"123" } if j == "size" and not cfg["conf"]["synchronized"] else dict(j) if isinstance(j, dict) else j)
    else:
      a = samples(conf, op[4], op[5])
      if tracks[i].start is not None and tracks[i].end - op[3] > op[4]: continue # a shrunk case
      tracks[i].add(op[3], a)
      await f.send(i, { "timestamp": op[3], "data": a.tobytes() })
  await f.settle()
  # the end: every track goes on where it was
  for i in range(n):
    if shown[i]: await f.pause(i, False)
  await f.settle()
  far = max([ int(-(-t.end // 1)) for t in tracks if t.start is not None ] + [ 1000 ])
  while any(t.start is None or t.end < far + 80 for t in tracks):
    i = min(range(n), key=lambda i: tracks[i].end if tracks[i].start is not None else far)
    ts = int(-(-tracks[i].end // 1)) if tracks[i].start is not None else far
    a = samples(conf, 20, ts)
    tracks[i].add(ts, a)
    await f.send(i, { "timestamp": ts, "data": a.tobytes() })
    await asyncio.sleep(0.001)
  await f.settle()
  end = min(t.end for t in tracks)
  end -= 40 # a synchronised mixer may hold the last ones back
  if repr(f.seen) != repr(f.sent): raise Violation("input-changed", "another consumer of the inputs got something else")
  at, top = None, 0
  for _, _, k, v in f.out:
    if k == "p": raise Violation("wrong-output", f"the mixer set its output to paused={v}")
    got = np.frombuffer(v["data"], dtype=dt).reshape((-1, ch))
    ts = v["timestamp"]
    if not any(flexible):
      first = min(t.start for t in tracks)
      if ts != (at if at is not None else first): raise Violation("wrong-time", f"mixer {conf}: a piece from {ts} to {ts + len(got) * 1000 / rate} ms came where {at if at is not None else first} was due")
    at = ts + len(got) * 1000 // rate
    if len(got) * 1000 % rate: raise Violation("wrong-length", f"mixer {conf}: {len(got)} samples")
    if not any(flexible) and at > min(t.end for t in tracks): raise Violation("too-early", f"mixer {conf}: output until {at} ms, the tracks end at {[ t.end for t in tracks ]}")
    left = None
    parts = [ t.at(ts, len(got)).astype("f8" if dt.kind == "f" else "i8") for t in tracks ]
    maybe = [ i for i in range(n) if flexible[i] or ts < top ] # after a pause a track may go back to where the others have been
    top = max(top, at)
    for mask in range(1 << len(maybe)):
      want = sum([ p for i, p in enumerate(parts) if i not in maybe or mask >> maybe.index(i) & 1 ], np.zeros_like(parts[0]))
      if dt.kind == "f": ok = np.abs(want - got) < 1e-5
      else: ok = np.clip(want, np.iinfo(dt).min, np.iinfo(dt).max) == got
      left = ~ok.all(axis=1) if left is None else left & ~ok.all(axis=1)
    if left.any():
      j = int(np.argmax(left))
      raise Violation("wrong-output", f"mixer {conf}: the sample at {ts + j * 1000 / rate} ms is {got[j].tolist()}, the tracks hold {[ p[j].tolist() for p in parts ]} there")
  keep = conf["buffer_keep_size"] * 1000 // rate
  if at is None or at < end - keep: raise Violation("missing", f"mixer {conf}: all tracks go on until {end} ms, the output ends at {at}")


def merge(conf, frames):
  """Every frame over the one before it, on an opaque background."""
  names = conf["pixel_format"]
  a = names.index("a")
  bg = conf["bgcolor_hex"].lower()
  bg = { "r": int(bg[1:3], 16), "g": int(bg[3:5], 16), "b": int(bg[5:7], 16), "a": 255 }
  out = [ bg[c] for c in names ] * (conf["width"] * conf["height"])
  for fr in frames:
    for o in range(0, len(out), 4):
      alpha = fr[o + a]
      for c in range(4):
        if c != a: out[o + c] = ((255 - alpha) * out[o + c] + alpha * fr[o + c]) // 255
  return bytes(out)


async def video(sim, case, f):
  import random
  cfg, conf, n = case["cfg"], case["cfg"]["conf"], case["cfg"]["n"]
  size = conf["width"] * conf["height"] * 4
  # state: (picture number, per track its frame and the picture it was meant for)
  def step(st, i, ev):
    num, tr = st
    if ev[0] == "p": return (num, tr[:i] + ((None, tr[i][1]),) + tr[i+1:]), []
    d = ev[1]
    if not isinstance(d, dict) or not isinstance(d.get("timestamp"), int) or not isinstance(d.get("data"), bytes) or len(d["data"]) != size: return st, []
    out = []
    if tr[i][1] == num: # its place in this picture is taken: the picture is complete
      num += 1
      have = [ x[0] for x in tr if x[0] is not None ]
      if have: out.append((0, "d", (min(x[0] for x in have), merge(conf, [ x[1] for x in have ]))))
    return (num, tr[:i] + (((d["timestamp"], d["data"]), num),) + tr[i+1:]), out
  hand = Hand(n, "plain" if conf["synchronized"] else None, (0, tuple((None, 0) for _ in range(n))), step)
  events, mark = [ [] for _ in range(n) ], 0
  shown = [False] * n
  t0 = sim.now
  def compare():
    nonlocal events, mark
    outs = [ (j, k, v if k == "p" else (v["timestamp"], v["data"])) for _, j, k, v in f.out[mark:] ]
    mark = len(f.out)
    ok = hand.phase(events, outs)
    if ok is None: return False
    if not ok: raise Violation("wrong-output", f"mixer {conf}: no order of the inputs explains the outputs; inputs {str(events)[:600]}, outputs {str(outs)[:600]}")
    events = [ [] for _ in range(n) ]
    return True
  for op in case["ops"] + [[0.0, "settle"]]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      if not compare():
        sim.probe("too_many_orders")
        break
      t0 = sim.now - op[0]
      continue
    i = op[2]
    if op[1] == "pause":
      await f.pause(i, op[3])
      if shown[i] != op[3]:
        shown[i] = op[3]
        events[i].append(("p", op[3]))
      continue
    if op[1] == "junk":
      j = JUNK[op[3]]
      d = { "timestamp": 5, "data": bytes(size - 3) } if j == "size" else dict(j) if isinstance(j, dict) else j
    else:
      r = random.Random(op[5])
      d = { "timestamp": op[3], "data": bytes(r.choice([0, 255, 128, r.randrange(256)]) for _ in range(size)) }
    events[i].append(("d", freeze(d)))
    await f.send(i, d)
  if repr(f.seen) != repr(f.sent): raise Violation("input-changed", "another consumer of the inputs got something else")


async def main(sim, case):
  cfg = case["cfg"]
  f = Flow(sim, cfg, cfg["n"], 1)
  await f.start(lambda c: build(cfg["kind"], cfg["conf"], cfg["n"], c))
  await (audio if cfg["kind"] == "audio" else video)(sim, case, f)
  await f.stop()
  sim.probe("answers", len(f.out))
  return { "nontrivial": len(f.out) >= 5 }


def run(case, keep_log=False):
  native.load()
  return execute(case, main, keep_log=keep_log, inside=thread_queues, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
