"""S07: audio and video converters and meters treat every message of their input once, in order, whatever thread does the work."""
from __future__ import annotations

import asyncio
import time

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, Hand, freeze, gen_net
from dst.medialab import thread_queues
from dst.sim import Violation

ID = "S07"
RULE = ("seeded case = loop-free network, one of volume scaler (plain or synchronised scale), volume meter, activity meter, video layout, audio resampler, video reformatter, 10-50 audio or video messages in bursts, malformed and extreme ones, pauses, worker threads "
        "that are slow to wake, delayed links, stop with work queued; non-trivial when at least 5 messages were answered; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.media (audiovolumescaler, audiovolumemeter, videoactivitymeter, videolayout, audioresampler, videoreformatter)", "streamtasks.media (audio, video, util)", "streamtasks.system.task (SyncTask)", "PyAV, numpy, OpenCV", "streamtasks.client.topic", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "worker threads and their queues (simulator's baton)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 12000, "thorough": 800000 }
KINDS = ["scaler", "scaler", "scaler", "volume", "activity", "layout", "resampler", "reformatter"]
JUNK = [ "text", [1], {}, { "timestamp": 5 }, { "data": b"1234" }, { "timestamp": "x", "data": b"1234" }, { "timestamp": 7, "data": [1] } ]
DT = { "s16": "i2", "s16p": "i2", "s32": "i4", "flt": "f4", "fltp": "f4", "dbl": "f8", "u8": "u1" }


def gen(rng, tier="quick"):
  kind = rng.choice(KINDS)
  n = 1
  if kind == "scaler":
    conf = { "sample_format": rng.choice(["s16", "s16", "s16p", "s32", "flt", "fltp"]), "channels": rng.choice([1, 2]), "default_scale": rng.choice([1.0, 0.5, 3.0]), "synchronized": rng.random() < 0.7, "scale": rng.random() < 0.8 }
    n = 2 if conf["scale"] else 1
  elif kind == "volume": conf = { "sample_format": rng.choice(["s16", "s16", "s32", "flt"]), "rate": rng.choice([8000, 1000]), "time_window": rng.choice([10, 25, 100]) }
  elif kind == "activity": conf = { "pixel_format": rng.choice(["bgr24", "gray", "rgba"]), "width": 4, "height": 3, "rate": rng.choice([1, 30]) }
  elif kind == "layout": conf = { "rate": 30, "in_width": 4, "in_height": 3, "place_width": 4, "place_height": 3, "place_left_offset": rng.choice([0, 1, 3]), "place_top_offset": rng.choice([0, 2]), "out_width": rng.choice([4, 6]), "out_height": rng.choice([3, 5]) }
  elif kind == "resampler":
    conf = { "in_sample_format": rng.choice(["s16", "s16", "flt", "fltp", "u8"]), "out_sample_format": rng.choice(["s16", "s32", "flt", "fltp"]), "in_rate": 8000, "out_rate": rng.choice([8000, 8000, 8000, 16000, 4000]), "in_channels": rng.choice([1, 1, 2]) }
    conf["out_channels"] = conf["in_channels"]
  else: conf = { "in_pixel_format": "bgr24", "out_pixel_format": rng.choice(["bgr24", "bgr24", "rgb24"]), "in_rate": rng.choice([10, 20]), "out_rate": rng.choice([10, 20, 40]), "in_width": 4, "in_height": 4, "out_width": 4, "out_height": 4 }
  ops, t, clock, paused = [], 0.0, rng.choice([1000, 1700000000000]), [False, False]
  for _ in range(rng.randint(10, 50)):
    t += rng.choice([0.0, 0.0, 0.0, 0.0005, 0.004, 0.03, 0.6 if rng.random() < 0.2 else 0.0])
    r = rng.random()
    i = 1 if n == 2 and rng.random() < 0.35 else 0
    if r < 0.12:
      paused[i] = not paused[i]
      ops.append([round(t, 4), "pause", i, paused[i]])
    elif r < 0.24: ops.append([round(t, 4), "junk", i, rng.randrange(len(JUNK) + 2)])
    elif r < 0.3: ops.append([round(t, 4), "settle"])
    else:
      clock += rng.choice([0, 1, 10, 25, 50, 100]) if kind not in ("reformatter", "resampler") else 1000 // conf["in_rate"] if kind == "reformatter" else 50
      ops.append([round(t, 4), "data", i, clock, rng.randrange(1 << 20)])
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, n), "shuffle": 0.0, "kind": kind, "n": n, "conf": conf, "stop_busy": rng.random() < 0.4 }, "ops": ops }


def build(kind, conf, client):
  import importlib
  mod = { "scaler": "audiovolumescaler", "volume": "audiovolumemeter", "activity": "videoactivitymeter", "layout": "videolayout", "resampler": "audioresampler", "reformatter": "videoreformatter" }[kind]
  name = { "scaler": "AudioVolumeScaler", "volume": "AudioVolumeMeter", "activity": "VideoActivityMeter", "layout": "VideoLayout", "resampler": "AudioResampler", "reformatter": "VideoReformatter" }[kind]
  m = importlib.import_module(f"streamtasks.system.tasks.media.{mod}")
  c = { k: v for k, v in conf.items() if k != "scale" }
  if kind == "scaler" and conf["scale"]: c["scale_topic"] = IN0 + 1
  return getattr(m, name + "Task")(client, getattr(m, name + "Config").model_validate({ "in_topic": IN0, "out_topic": OUT0, **c }))


def samples(kind, conf, x):
  """The content of one message from a number."""
  import numpy as np
  r = np.random.default_rng(x)
  if kind in ("activity", "layout", "reformatter"):
    w, h = (conf["width"], conf["height"]) if kind == "activity" else (conf["in_width"], conf["in_height"])
    d = 4 if kind == "layout" else { "gray": 1, "bgr24": 3, "rgba": 4 }[conf.get("pixel_format", "bgr24")]
    return r.integers(0, 256, (h, w, d)).astype(np.uint8)
  fmt = conf.get("sample_format") or conf["in_sample_format"]
  n = 400 if kind == "resampler" else int(r.choice([1, 3, 10, 80, 200, 777]))
  ch = conf.get("channels") or conf.get("in_channels") or 1
  dt = np.dtype(DT[fmt])
  if dt.kind == "f": a = (r.random((n, ch)) * 2 - 1).astype(dt)
  else:
    lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    a = r.integers(lo, hi, (n, ch), endpoint=True).astype(dt)
    if x % 5 == 0: a[:] = lo
  return a.T.copy() if fmt.endswith("p") else a


class Ref:
  """What one input event has to lead to: a list of ("p", bool) and ("d", test or payload)."""
  def __init__(self, kind, conf, eager):
    self.kind, self.conf = kind, conf
    self.eager = eager # a window that has just been filled is given out at once, or together with what follows
    self.expect = []
    self.paused = False
    self.buf = None
    self.last = None
    self.t0 = None
    self.acc = 0.0
    self.frames = 0

  def pause(self, p):
    if self.paused == p: return []
    self.paused = p
    if self.kind in ("volume", "activity") and p: return [ ("d", lambda d: d["value"] == 0), ("p", p) ]
    return [ ("p", p) ]

  def data(self, ts, a):
    import numpy as np
    kind, conf = self.kind, self.conf
    if kind == "layout":
      out = np.zeros((conf["out_height"], conf["out_width"], 4), dtype=np.uint8)
      x, y = conf["place_left_offset"], conf["place_top_offset"]
      part = a[:conf["out_height"] - y, :conf["out_width"] - x]
      out[y:y + part.shape[0], x:x + part.shape[1]] = part
      return [ ("d", { "timestamp": ts, "data": out.tobytes() }) ]
    if kind == "activity":
      last, self.last = self.last, a.astype(float)
      if last is None: return []
      want = float(np.abs(last - self.last).mean())
      return [ ("d", lambda d: d["timestamp"] == ts and abs(d["value"] - want) < 1e-6) ]
    if kind == "volume":
      top = 1.0 if a.dtype.kind == "f" else float(np.iinfo(a.dtype).max)
      size, rate = conf["rate"] * conf["time_window"] // 1000, conf["rate"]
      a = np.abs(a.astype(float).ravel()) / top
      held = 0 if self.buf is None else self.buf.size
      at = ts - held * 1000 // rate
      self.buf = a if self.buf is None else np.concatenate((self.buf, a))
      out = []
      while self.buf.size > size or (self.eager and self.buf.size == size):
        want = float(np.sqrt(self.buf[:size].mean()))
        out.append(("d", lambda d, want=want, at=at: d["timestamp"] == at and abs(d["value"] - want) < 1e-5))
        self.buf = self.buf[size:]
        at += 1000 * size // rate
      return out
    if kind == "resampler":
      fin, fout = conf["in_sample_format"], conf["out_sample_format"]
      if fin.endswith("p"): a = a.T
      full = { "s16": 2.0 ** 15, "s32": 2.0 ** 31, "u8": 2.0 ** 7, "flt": 1.0 }
      v = (a.astype(float) - (128 if fin == "u8" else 0)) / full[fin.rstrip("p")]
      def test(d):
        got = np.frombuffer(d["data"], dtype=DT[fout])
        ch = conf["out_channels"]
        got = got.reshape((ch, -1)).T if fout.endswith("p") else got.reshape((-1, ch))
        if abs(d["timestamp"] - ts) > 1 or got.shape != v.shape: return False
        return bool((np.abs(got.astype(float) / full[fout.rstrip("p")] - v) <= 2.0 / full[fout.rstrip("p")] + (2e-7 if fout.startswith("f") else 0)).all())
      return [ ("d", test) ]
    raise AssertionError(kind)


async def main(sim, case):
  import numpy as np
  cfg, kind, conf, n = case["cfg"], case["cfg"]["kind"], case["cfg"]["conf"], case["cfg"]["n"]
  f = Flow(sim, cfg, n, 1)
  await f.start(lambda c: build(kind, conf, c))
  t0 = sim.now
  refs = [ Ref(kind, conf, True), Ref(kind, conf, False) ] if kind == "volume" else [ Ref(kind, conf, True) ]
  shown = [False] * n
  # -- the scaler: a reference that follows every order the two readers may take
  def step(scale, i, ev):
    if i == 1:
      if ev[0] == "p": return (conf["default_scale"] if ev[1] else scale), []
      d = ev[1]
      ok = isinstance(d, dict) and isinstance(d.get("timestamp"), (int, float)) and isinstance(d.get("value"), (int, float))
      return (float(d["value"]) if ok else conf["default_scale"]), []
    if ev[0] == "p": return scale, [ (0, "p", ev[1]) ]
    d = ev[1]
    if not isinstance(d, dict) or not isinstance(d.get("timestamp"), int) or not isinstance(d.get("data"), bytes): return scale, []
    dt = np.dtype(DT[conf["sample_format"]])
    if len(d["data"]) % (dt.itemsize * conf["channels"]): return scale, []
    a = np.frombuffer(d["data"], dtype=dt).astype(float) * scale
    a = np.clip(a, -1, 1).astype(dt) if dt.kind == "f" else np.clip(a, np.iinfo(dt).min, np.iinfo(dt).max).astype(dt)
    return scale, [ (0, "d", freeze({ "timestamp": d["timestamp"], "data": a.tobytes() })) ]
  hand = Hand(n, "plain" if conf.get("synchronized") else None, conf.get("default_scale"), step) if kind == "scaler" else None
  events, mark = [ [] for _ in range(n) ], 0
  def compare():
    nonlocal mark, events
    if kind == "scaler":
      outs = [ (j, k, v if k == "p" else freeze(v)) for _, j, k, v in f.out[mark:] ]
      mark = len(f.out)
      ok = hand.phase(events, outs)
      if ok is None: return False
      if not ok: raise Violation("wrong-output", f"scaler {conf}: no order of the inputs explains the outputs; inputs {[ [ (k, brief(v)) for k, v in e ] for e in events ]}, outputs {[ (k, brief(v)) for _, k, v in outs ]}")
      events = [ [] for _ in range(n) ]
      return True
    if kind == "reformatter" or kind == "resampler" and conf["in_rate"] != conf["out_rate"]: return True
    got = [ (k, v) for _, _, k, v in f.out ]
    for ref in refs:
      bad = differs(ref.expect, got)
      if bad is None: return True
    raise Violation(bad[0], f"{kind} {conf}: {bad[1]}")
  ins = []
  for op in case["ops"] + ([] if cfg["stop_busy"] else [[0.0, "settle"]]):
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await f.settle()
      if not compare():
        sim.probe("too_many_orders")
        break
      t0 = sim.now - op[0]
      continue
    i = op[2]
    if op[1] == "pause":
      await f.pause(i, op[3])
      if shown[i] != op[3]:
        shown[i] = op[3]
        events[i].append(("p", op[3]))
        if i == 0:
          for ref in refs: ref.expect += ref.pause(op[3])
          ins.append(("p", op[3]))
      continue
    if op[1] == "junk":
      if op[3] < len(JUNK): d = JUNK[op[3]]
      else: d = { "timestamp": 3, "data": b"123" if kind not in ("volume",) else b"1" }
      if isinstance(d, dict): d = dict(d)
      valid = isinstance(d, dict) and len(d) == 2 and isinstance(d["timestamp"], int) and isinstance(d["data"], bytes)
      if kind == "resampler" and conf["in_sample_format"] == "u8" and valid and i == 0: continue
    elif i == 1: d = { "timestamp": op[3] * 2 + 1, "value": [0.0, 0.5, 1.0, 2.0, 30.0][op[4] % 5] }
    else:
      a = samples(kind, conf, op[4])
      ts = op[3] * 2 if kind == "scaler" else op[3]
      d = { "timestamp": ts, "data": a.tobytes() }
      if kind == "reformatter" or kind == "resampler" and conf["in_rate"] != conf["out_rate"]: ins.append(("d", ts, a))
      elif kind != "scaler":
        for ref in refs: ref.expect += ref.data(ts, a)
    events[i].append(("d", freeze(d)))
    await f.send(i, d)
  if not cfg["stop_busy"] and kind in ("reformatter", "resampler"): stretch(kind, conf, ins, f)
  if repr(f.seen) != repr(f.sent) and not cfg["stop_busy"]: raise Violation("input-changed", "another consumer of the input got something else")
  await f.stop()
  sim.probe("answers", len(f.out))
  return { "nontrivial": sum(k == "d" for _, _, k, _ in f.out) >= 5 }


def differs(expect, got):
  for j, e in enumerate(expect):
    if j >= len(got): return "missing", f"{len(expect)} answers were due, there are {len(got)}"
    k, v = got[j]
    if k != e[0] or (k == "p" and v != e[1]) or (k == "d" and not (e[1](v) if callable(e[1]) else v == e[1])):
      return "wrong-output", f"answer {j} is {brief(got[j])}, that is not what belongs there ({'a pause ' + str(e[1]) if e[0] == 'p' else 'data' if callable(e[1]) else brief(e[1])})"
  if len(got) > len(expect): return "extra", f"{brief(got[len(expect)])} is the answer to no input"


def stretch(kind, conf, ins, f):
  """Converters that change the rate: content in order, amount and timestamps in proportion."""
  import numpy as np
  got = [ (k, v) for _, _, k, v in f.out ]
  data = [ i for i in ins if i[0] == "d" ]
  if kind == "resampler":
    if conf["in_rate"] == conf["out_rate"]: return
    n_in = sum(i[2].size for i in data) // conf["in_channels"]
    item = np.dtype(DT[conf["out_sample_format"]]).itemsize * conf["out_channels"]
    n_out = sum(len(v["data"]) for k, v in got if k == "d") // item
    want = n_in * conf["out_rate"] / conf["in_rate"]
    if not want - 100 <= n_out <= want + 100: raise Violation("wrong-length", f"{n_in} samples at {conf['in_rate']} Hz became {n_out} at {conf['out_rate']} Hz")
    at = None
    for k, v in got:
      if k != "d": continue
      if at is not None and abs(v["timestamp"] - at) > 3: raise Violation("wrong-time", f"resampled audio jumps from {at:.1f} to {v['timestamp']} ms")
      at = v["timestamp"] + len(v["data"]) // item * 1000 / conf["out_rate"]
  else:
    ratio, acc, j, t0 = conf["out_rate"] / conf["in_rate"], 0.0, 0, None
    last = None
    for i in ins:
      if i[0] == "p":
        if j >= len(got) or got[j] != ("p", i[1]): raise Violation("wrong-output", f"reformatter {conf}: {brief(got[j]) if j < len(got) else 'nothing'} came where the pause {i[1]} was due")
        j += 1
        continue
      if t0 is None: t0 = i[1]
      acc += ratio
      want = i[2][:, :, ::-1].tobytes() if conf["out_pixel_format"] == "rgb24" else i[2].tobytes()
      while acc >= 1:
        acc -= 1
        if j >= len(got) or got[j][0] != "d" or got[j][1]["data"] != want: raise Violation("wrong-output", f"reformatter {conf}: frame {i[1]} should have come as answer {j}")
        ts = got[j][1]["timestamp"]
        if last is not None and ts <= last: raise Violation("wrong-time", f"reformatter {conf}: timestamp {ts} after {last}")
        if abs(ts - i[1]) > 2 * 1000 / min(conf["in_rate"], conf["out_rate"]): raise Violation("wrong-time", f"reformatter {conf}: frame {i[1]} came out with timestamp {ts}")
        last = ts
        j += 1
    if j < len(got): raise Violation("extra", f"reformatter {conf}: {brief(got[j])} is the answer to no input")


def brief(v):
  s = repr(v)
  return s if len(s) < 160 else s[:100] + f"...({len(s)})"


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, inside=thread_queues, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
