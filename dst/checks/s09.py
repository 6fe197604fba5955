"""S09: media that is encoded on one node and decoded on another comes out as it went in, at the time it went in."""
from __future__ import annotations

import asyncio

from dst.core import execute
from dst.flowlab import IN0, OUT0, Flow, gen_net
from dst.lab import client_link
from dst.medialab import thread_queues
from dst.sim import Violation

ID = "S09"
RULE = ("seeded case = loop-free network, an encoder task and a decoder task on clients of their own, audio (pcm, flac) or video (rawvideo, png, ffv1, bmp, mpeg4 with and without reordering), 5-40 messages in bursts with exact, rounded or jittering timestamps and gaps, "
        "malformed messages to either task, worker threads that are slow to wake, delayed links; non-trivial when at least 5 messages came out; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.media (audioencoder, audiodecoder, videoencoder, videodecoder)", "streamtasks.media (codec, audio, video, packet)", "streamtasks.system.task (Task, SyncTask)", "PyAV with its FFmpeg codecs", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "worker threads and their queues (simulator's baton)", "sockets (simulated byte streams)", "task hosts (the task objects are run directly)"]
COUNT = { "quick": 9000, "thorough": 600000 }
MID = 300
JUNK = [ "text", [1], {}, { "timestamp": 5 }, { "data": b"1234" }, { "timestamp": "x", "data": b"1234" }, { "timestamp": 7, "data": [1] }, { "timestamp": 7, "data": b"123" } ]
JUNK_PACKET = [ "text", {}, { "timestamp": 5 }, { "timestamp": 5, "packet": {} }, { "timestamp": 5, "packet": b"12" }, { "timestamp": "x", "packet": { "data": b"", "pts": 0, "rel_dts": 0, "is_keyframe": True } }, { "timestamp": 5, "packet": { "data": 5, "pts": 0, "rel_dts": 0, "is_keyframe": True } } ]
# encoder, its formats, lossless
AUDIO = [ ("pcm_s16le", "s16"), ("pcm_s16le", "s16"), ("pcm_f32le", "flt"), ("pcm_s32le", "s32"), ("flac", "s16") ]
VIDEO = [ ("rawvideo", "rgb24", "bgr24"), ("rawvideo", "bgr24", "bgr24"), ("png", "rgb24", "rgb24"), ("bmp", "bgr24", "bgr24"), ("ffv1", "bgra", "bgra"), ("mpeg4", "rgb24", "yuv420p"), ("mpeg4", "rgb24", "yuv420p") ]
DT = { "s16": "i2", "s32": "i4", "flt": "f4" }


def gen(rng, tier="quick"):
  kind = rng.choice(["audio", "video", "video"])
  ops, t = [], 0.0
  clock = rng.choice([0, 1000, 1700000000000])
  if kind == "audio":
    enc, fmt = rng.choice(AUDIO)
    conf = { "codec": enc, "fmt": fmt, "rate": rng.choice([8000, 16000, 32000]), "channels": rng.choice([1, 1, 2]) }
    step = lambda: 20
    gaps = enc != "flac" and rng.random() < 0.3
  else:
    enc, fin, fmt = rng.choice(VIDEO)
    conf = { "codec": enc, "in_fmt": fin, "fmt": fmt, "rate": rng.choice([10, 25, 25, 30, 60, 29.97]), "width": 16, "height": 16, "options": { "bf": "2" } if enc == "mpeg4" and rng.random() < 0.5 else {} }
    gaps = rng.random() < 0.3
  jitter = kind == "video" and rng.random() < 0.4
  pos, lossy = 0, enc not in ("flac", "mpeg4", "ffv1") and rng.random() < 0.4
  for k in range(rng.randint(5, 40)):
    t += rng.choice([0.0, 0.0, 0.0, 0.0005, 0.004, 0.03, 0.6 if rng.random() < 0.2 else 0.0])
    r = rng.random()
    if r < 0.1: ops.append([round(t, 4), "junk", rng.randrange(len(JUNK))])
    elif r < 0.2: ops.append([round(t, 4), "junk_packet", rng.randrange(len(JUNK_PACKET))])
    else:
      ts = clock + int(pos * 1000 / (50 if kind == "audio" else conf["rate"]))
      if jitter and pos: ts += rng.choice([0, 0, 1, 3, int(400 / conf["rate"])])
      ops.append([round(t, 4), "data", ts, rng.randrange(1 << 20), lossy and rng.random() < 0.1])
      pos += 1 + (rng.choice([1, 7]) if gaps and rng.random() < 0.2 else 0)
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, 2), "shuffle": 0.0, "kind": kind, "conf": conf, "jitter": jitter }, "ops": ops }


def build(kind, c, client, side):
  if kind == "audio":
    from streamtasks.system.tasks.media import audiodecoder as d, audioencoder as e
    common = { "channels": c["channels"], "rate": c["rate"], "in_sample_format": c["fmt"], "out_sample_format": c["fmt"], "codec": c["codec"] }
    if side == 0: return e.AudioEncoderTask(client, e.AudioEncoderConfig.model_validate({ **common, "in_topic": IN0, "out_topic": MID, "encoder": c["codec"] }))
    return d.AudioDecoderTask(client, d.AudioDecoderConfig.model_validate({ **common, "in_topic": MID + 1, "out_topic": OUT0, "decoder": c["codec"] }))
  from streamtasks.system.tasks.media import videodecoder as d, videoencoder as e
  common = { "width": c["width"], "height": c["height"], "rate": c["rate"], "codec": c["codec"] }
  if side == 0: return e.VideoEncoderTask(client, e.VideoEncoderConfig.model_validate({ **common, "in_topic": IN0, "out_topic": MID, "encoder": c["codec"], "in_pixel_format": c["in_fmt"], "out_pixel_format": c["fmt"], "codec_options": dict(c["options"]) }))
  # what the decoder turns out is what went in
  return d.VideoDecoderTask(client, d.VideoDecoderConfig.model_validate({ **common, "in_topic": MID + 1, "out_topic": OUT0, "decoder": c["codec"], "in_pixel_format": c["fmt"], "out_pixel_format": c["in_fmt"] }))


def content(kind, c, x):
  import numpy as np
  r = np.random.default_rng(x)
  if kind == "video":
    if c["codec"] == "mpeg4": return np.full((16, 16, 3), x % 200 + 20, np.uint8)
    return r.integers(0, 256, (16, 16, 4 if c["in_fmt"] == "bgra" else 3)).astype(np.uint8)
  n, dt = c["rate"] // 50, np.dtype(DT[c["fmt"]])
  if dt.kind == "f": return (r.random((n, c["channels"])) * 2 - 1).astype(dt)
  return r.integers(np.iinfo(dt).min, np.iinfo(dt).max, (n, c["channels"])).astype(dt)


async def main(sim, case):
  import numpy as np
  from streamtasks.client import Client
  from streamtasks.client.receiver import Receiver
  from streamtasks.net.messages import TopicDataMessage
  from streamtasks.net.serialization import RawData
  cfg, kind, c = case["cfg"], case["cfg"]["kind"], case["cfg"]["conf"]
  f = Flow(sim, cfg, 2, 1)
  datas = [ op for op in case["ops"] if op[1] == "data" ]
  lost = { i for i, op in enumerate(datas) if op[4] } # every message becomes one packet
  await f.start(lambda cl: build(kind, c, cl, 0))
  cl = Client(await client_link(sim, f.switches[cfg["sources"][1]["sw"]], cfg["sources"][1]["kind"], "dec"))
  dec = build(kind, c, cl, 1)
  await dec.setup()
  dec_task = asyncio.create_task(dec.run())
  # between the two: a relay that adds broken packets and loses some
  relay = f.pub[1]
  out = relay.out_topic(MID + 1)
  await out.start()
  await out.set_registered(True)
  passing, count = asyncio.Queue(), 0
  class Tap(Receiver):
    def on_message(self, m):
      nonlocal count
      if not isinstance(m, TopicDataMessage) or m.topic != MID: return
      if count in lost: sim.fault("packet_loss")
      else: passing.put_nowait(m.data.data)
      count += 1
  async def forward():
    while True: await out.send(RawData(await passing.get()))
  tap = Tap(relay)
  await tap.start_recv()
  await relay.register_in_topics([MID])
  relaying = asyncio.create_task(forward())
  await f.settle()
  t0 = sim.now
  sent, k = [], 0
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "junk": await f.send(0, JUNK[op[2]])
    elif op[1] == "junk_packet": passing.put_nowait(JUNK_PACKET[op[2]])
    else:
      a = content(kind, c, op[3])
      if k not in lost: sent.append((op[2], a))
      k += 1
      await f.send(0, { "timestamp": op[2], "data": a.tobytes() })
  await f.settle(3.0)
  if dec_task.done(): raise Violation("task-died", f"the decoder ended by itself: {dec_task.exception()!r}")
  got = [ v for _, _, k, v in f.out if k == "d" ]
  if len(got) < len(f.out): raise Violation("wrong-output", "the decoder paused its output")
  what = f"{kind} {c}"
  if kind == "audio":
    item = np.dtype(DT[c["fmt"]])
    whole = np.concatenate([ a for _, a in sent ]) if sent else np.zeros((0, c["channels"]), item)
    out = [ np.frombuffer(v["data"], item).reshape((-1, c["channels"])) for v in got ]
    n = sum(len(o) for o in out)
    cat = np.concatenate(out) if out else whole[:0]
    lag = 0 if c["codec"] != "flac" else 4608 + 1 # samples the encoder may still wait with
    if n > len(whole): raise Violation("wrong-length", f"{what}: {len(whole)} samples went in, {n} came out")
    if n < len(whole) - lag: raise Violation("missing", f"{what}: {len(whole)} samples went in, {n} came out")
    if not (cat == whole[:n]).all(): raise Violation("wrong-output", f"{what}: sample {int(np.argmax((cat != whole[:n]).any(axis=1)))} differs from what went in")
    per, k = c["rate"] // 50, 0
    for v, o in zip(got, out):
      want = sent[k // per][0] + (k % per) * 1000 / c["rate"]
      if abs(v["timestamp"] - want) > 1: raise Violation("wrong-time", f"{what}: what was recorded at {want} ms came out as of {v['timestamp']} ms")
      k += len(o)
  else:
    lag = 0 if c["codec"] != "mpeg4" else 4
    if len(got) > len(sent): raise Violation("wrong-length", f"{what}: {len(sent)} pictures went in, {len(got)} came out")
    if len(got) < len(sent) - lag: raise Violation("missing", f"{what}: {len(sent)} pictures went in, {len(got)} came out")
    last = None
    for j, (v, (ts, a)) in enumerate(zip(got, sent)):
      o = np.frombuffer(v["data"], np.uint8).reshape(a.shape)
      ok = (o == a).all() if c["codec"] != "mpeg4" else np.abs(o.astype(int) - a).mean() < 6
      if not ok: raise Violation("wrong-output", f"{what}: picture {j} differs from what went in")
      if abs(v["timestamp"] - ts) > 1000 / c["rate"] * (1 if cfg["jitter"] else 0.5) + 1: raise Violation("wrong-time", f"{what}: the picture of {ts} ms came out as of {v['timestamp']} ms")
      if last is not None and v["timestamp"] <= last: raise Violation("wrong-time", f"{what}: {v['timestamp']} ms after {last} ms")
      last = v["timestamp"]
  f.check_witness()
  relaying.cancel()
  dec_task.cancel()
  await asyncio.wait([ dec_task ], timeout=5.0)
  if not dec_task.done(): raise Violation("task-stuck", "the decoder does not end within 5 s of being cancelled")
  await f.stop()
  sim.probe("answers", len(got))
  return { "nontrivial": len(got) >= 5 }


def run(case, keep_log=False):
  return execute(case, main, keep_log=keep_log, inside=thread_queues, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
