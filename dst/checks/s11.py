"""S11: what a file holds is played once, in order, at its time, until its end."""
from __future__ import annotations

import asyncio
import contextlib
import functools
import os
import time
from fractions import Fraction

from dst.core import execute
from dst.flowlab import OUT0, Flow, gen_net
from dst.medialab import playback
from dst.sim import Violation
from dst.weblab import scratch_dir

ID = "S11"
RULE = ("seeded case = loop-free network, an input container that plays a file with 1-3 video and audio tracks (several codecs, rates, container formats, gaps, tracks that start late or end early, reordered packets, some transcoded), in real time or as fast as possible, "
        "a disk that is slow, stalls for seconds or fails at any packet, a source from a secret that may be missing, a missing file or track, stop at any moment; non-trivial when at least 8 packets were played; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.media.inputcontainer", "streamtasks.media.container (InputContainer)", "streamtasks.media.packet", "streamtasks.media.codec (for transcoded tracks)", "streamtasks.utils (AsyncMPProducer)", "streamtasks.system.secret_manager (client)", "PyAV with its demuxers on a scratch directory", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "executor threads (run under the simulator's baton)", "the secret manager (scripted)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 6000, "thorough": 400000 }
FORMAT = { "rawvideo": "gray", "ffv1": "yuv420p", "mpeg4": "yuv420p", "mjpeg": "yuvj420p", "pcm_s16le": "s16", "aac": "fltp" }


def gen(rng, tier="quick"):
  n = rng.choice([1, 2, 2, 3])
  tracks = []
  length = rng.choice([300, 1000, 3000])
  for _ in range(n):
    if rng.random() < 0.5: t = { "kind": "video", "codec": rng.choice(["rawvideo", "mjpeg", "ffv1", "mpeg4"]), "rate": rng.choice([10, 24, 25, 30, 50]), "step": 1 }
    else:
      t = { "kind": "audio", "codec": rng.choice(["pcm_s16le", "pcm_s16le", "aac"]), "rate": rng.choice([16000, 48000]), "channels": rng.choice([1, 2]) }
      if t["codec"] == "aac": t["channels"] = 2
      t["step"] = 1024 if t["codec"] == "aac" else t["rate"] // 50
      t["transcode"] = t["codec"] == "pcm_s16le" and rng.random() < 0.4
    frame = 1000 * t["step"] / t["rate"]
    pos = int(rng.choice([0, 0, 0, 200, 700]) / frame)
    end = (length if rng.random() < 0.7 else length // 3) / frame
    gap = rng.random() < 0.3 and not t.get("transcode")
    t["packets"] = []
    while pos <= end and len(t["packets"]) < 60:
      t["packets"].append(pos)
      pos += 1 + (rng.randint(1, int(500 / frame) + 1) if gap and rng.random() < 0.1 else 0)
    if t["codec"] == "mpeg4" and len(t["packets"]) < 5: t["codec"] = "ffv1"
    if t["codec"] == "mpeg4": t["rate"], t["packets"] = 25, [ x + max(1, t["packets"][0]) for x in range(len(t["packets"])) ] # real ones, each needs the others, and the first is to be decoded before it is shown
    if t["codec"] == "mpeg4": t["transcode"], t["to"] = rng.random() < 0.5, rng.choice([25, 25, 50]) # to raw frames, which are repeated where the rate is higher
    tracks.append(t)
  tracks.sort(key=lambda t: t["kind"] == "audio")
  format = rng.choice(["nut", "matroska"])
  if any(t["codec"] == "mpeg4" for t in tracks): format = "matroska" # the other one loses the decoding times
  if not any(t["packets"] for t in tracks): tracks[0]["packets"] = [ 0, 1 ]
  reads = sum(len(t["packets"]) for t in tracks)
  net = gen_net(rng, 0, 1) # on a longer way the first messages are lost
  return { "seed": rng.getrandbits(48), "cfg": { **net, "tracks": tracks, "format": format, "realtime": rng.random() < 0.7,
                                                "disk": rng.choice([0.0, 0.0, 0.001, 0.02]), "stall": [ rng.randint(1, reads + 1), rng.choice([0.3, 2.0, 6.0]) ] if rng.random() < 0.4 else None,
                                                "error": rng.randint(1, reads + 1) if rng.random() < 0.15 else None, "extra": rng.random() < 0.05, "skip": rng.random() < 0.2 and n > 1,
                                                "source": rng.choice(["file"] * 10 + ["nowhere", "secret", "nosecret"]), "disc": { "sw": 0, "kind": "queue" } },
           "ops": [ [ round(rng.random() * (length / 1000 + 0.5), 4), "stop" ] ] if rng.random() < 0.3 else [] }


@functools.cache
def encoded():
  """Video with frames that are sent before they are shown: (data, pts, dts)."""
  import av
  import numpy as np
  c = av.CodecContext.create("mpeg4", "w")
  c.width, c.height, c.pix_fmt, c.time_base, c.framerate, c.options = 16, 16, "yuv420p", Fraction(1, 25), 25, { "bf": "2", "flags": "+bitexact" }
  out = []
  for i in range(70):
    f = av.VideoFrame.from_ndarray(np.full((24, 16), i * 37 % 255, np.uint8), format="yuv420p")
    f.pts, f.time_base = i, Fraction(1, 25)
    out += c.encode(f)
  return [ (bytes(p), p.pts, p.dts, p.is_keyframe) for p in out ]


def stamp(k, t):
  """When packet k is to be shown, and how long before that it is to be decoded."""
  if t["codec"] != "mpeg4": return t["packets"][k] * t["step"], 0
  _, pts, dts, _ = encoded()[k]
  return t["packets"][0] + pts, pts - dts


def played_frames(t):
  """Per packet that is to be played: when it is to be shown, how long before that it is to be decoded, and which packet (or frame) of the file it is."""
  if t["codec"] != "mpeg4" or not t["transcode"]: return [ (*stamp(k, t), k) for k in range(len(t["packets"])) ]
  frames = sorted(stamp(k, t)[0] for k in range(len(t["packets"])))
  times = t["to"] // t["rate"]
  return [ (f * times + i, 0, f - t["packets"][0]) for f in frames for i in range(times) ]


def same(data, i, k, t):
  if t["codec"] != "mpeg4" or not t["transcode"]: return data == payload(i, k, t)
  return len(data) == 384 and all(abs(x - k * 37 % 255) <= 12 for x in data[:256])


def payload(i, k, t):
  if t["codec"] == "mpeg4": return encoded()[k][0]
  size = t["step"] * 2 * t["channels"] if t["codec"] == "pcm_s16le" else 64
  return (b"%d:%04d" % (i, k)).ljust(size, b".")


def size(t): return 16 if t["codec"] == "mpeg4" else 8


def write(path, cfg):
  import av
  from av.audio.format import AudioFormat
  from av.video.format import VideoFormat
  with av.open(path, "w", format=cfg["format"]) as c:
    todo = []
    for i, t in enumerate(cfg["tracks"]):
      if t["kind"] == "video": s = c.add_stream(t["codec"], rate=t["rate"], width=size(t), height=size(t), format=VideoFormat(FORMAT[t["codec"]], size(t), size(t)))
      else: s = c.add_stream(t["codec"], rate=t["rate"], channels=t["channels"], format=AudioFormat(FORMAT[t["codec"]]))
      if t["codec"] == "mpeg4": s.codec_context.options = { "bf": "2" }
      for k in range(len(t["packets"])):
        pts, rel = stamp(k, t)
        todo.append((Fraction(pts - rel, t["rate"]), i, k, s))
    for at, i, k, s in sorted(todo, key=lambda x: x[:3]):
      t = cfg["tracks"][i]
      p = av.Packet(payload(i, k, t))
      p.time_base, p.stream, p.is_keyframe = Fraction(1, t["rate"]), s, t["codec"] != "mpeg4" or encoded()[k][3]
      p.pts, rel = stamp(k, t)
      p.dts = p.pts - rel
      c.mux(p)


async def main(sim, case):
  from streamtasks.client.discovery import address_name_context
  from streamtasks.client.fetch import FetchError, FetchRequest, FetchServer, new_fetch_body_not_found
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.tasks.media.inputcontainer import InputContainerConfig, InputContainerTask
  cfg, tracks = case["cfg"], case["cfg"]["tracks"]
  d = os.environ["dst-r"]
  path = d + "/play." + cfg["format"]
  write(path, cfg)
  conf = { "source": path if cfg["source"] != "nowhere" else d + "/none", "real_time": cfg["realtime"], "video_tracks": [], "audio_tracks": [] }
  played = [ i for i in range(len(tracks)) if not (cfg["skip"] and i == len(tracks) - 1) ]
  for i in played:
    t = tracks[i]
    if t["kind"] == "video":
      codec = "rawvideo" if t.get("transcode") else t["codec"]
      conf["video_tracks"].append({ "out_topic": OUT0 + i, "pixel_format": FORMAT[t["codec"]], "encoder": codec, "codec": codec, "force_transcode": bool(t.get("transcode")), "width": size(t), "height": size(t), "rate": t["to"] if t.get("transcode") else t["rate"] })
    else: conf["audio_tracks"].append({ "out_topic": OUT0 + i, "sample_format": FORMAT[t["codec"]], "encoder": t["codec"], "codec": t["codec"], "rate": t["rate"], "channels": t["channels"], "force_transcode": bool(t.get("transcode")) })
  if cfg["extra"]: conf["audio_tracks"].append({ "out_topic": OUT0 + 9, "codec": "pcm_s16le", "sample_format": "s16" })
  switches = None
  if cfg["source"] in ("secret", "nosecret"):
    from uuid import UUID
    from dst.tasklab import boot_client, start_net
    switches, _, _ = await start_net(sim, cfg)
    keeper = await boot_client(sim, switches, cfg["sink"], "keeper")
    secret = UUID(int=7, version=4)
    server = FetchServer(keeper)
    @server.route("get_secret")
    async def _(req: FetchRequest):
      if cfg["source"] == "secret" and str(req.body["id"]) == str(secret): await req.respond({ "id": str(secret), "value": path[len(d) + 1:], "label": "x" })
      else: await req.respond_error(new_fetch_body_not_found("secret not found!"))
    serving = asyncio.create_task(server.run())
    naming = address_name_context(keeper, NetworkAddressNames.SECRET_MANAGER, keeper.address)
    await naming.__aenter__()
    await asyncio.sleep(0.3)
    conf |= { "source": d + "/", "source_secret": secret }
  f = Flow(sim, cfg, 0, len(tracks))
  f.alive = lambda: None
  f.settle = lambda: asyncio.sleep(0)
  wall = time.time() - sim.now
  begin = sim.now
  await f.start(lambda c: InputContainerTask(c, InputContainerConfig.model_validate(conf)), switches)
  task, rec = f.task, sim.playback
  media = max([ (t["packets"][-1] * t["step"] / t["rate"]) for t in tracks if t["packets"] ], default=0)
  stalled = sum(s for _, s in ([ cfg["stall"] ] if cfg["stall"] else [])) + sum(len(t["packets"]) for t in tracks) * cfg["disk"]
  limit = (media if cfg["realtime"] else 0) + stalled + 8.0
  stopped, reads = False, 0
  if case["ops"]:
    await asyncio.wait([ task ], timeout=case["ops"][0][0])
    if not task.done():
      stopped, reads = True, rec.reads
      task.cancel()
      limit = stalled + 5.0
  await asyncio.wait([ task ], timeout=limit)
  if not task.done(): raise Violation("task-stuck", f"the playback {'goes on after it was stopped' if stopped else 'of ' + str(media) + ' s does not end'}")
  ended = sim.now
  e = None if task.cancelled() else task.exception()
  if stopped and rec.reads > reads + 12: raise Violation("still-reading", f"{rec.reads - reads} packets were read after the task was stopped")
  if rec.reading and not stopped: raise Violation("still-reading", "the task has ended, its file is still being read")
  await asyncio.sleep(2.0 + stalled)
  rec.check()
  if rec.reading: raise Violation("still-reading", "the task was stopped, its file is still being read")
  if rec.open and not stopped: raise Violation("left-open", "the task has ended, its file was not closed")
  got = [ [ (at, m) for at, i, kind, m in f.out if i == j and kind == "d" ] for j in range(len(tracks)) ]
  for g in got:
    for at, m in g:
      if at > ended + 1.0: raise Violation("late-end", f"a packet was published {at - ended:.2f} s after the task had ended")
  complete = False
  if stopped:
    if e is not None and not rec.failed: raise Violation("task-died", f"the playback failed on its way out: {type(e).__name__}: {str(e)[:200]}")
    if not task.cancelled() and e is None: raise Violation("not-cancelled", "the task was cancelled, it shows as having ended by itself")
  elif cfg["source"] == "nosecret":
    if not isinstance(e, FetchError): raise Violation("wrong-error", f"the secret does not exist, the task ended with {e!r}")
  elif cfg["source"] == "nowhere":
    if not isinstance(e, FileNotFoundError): raise Violation("wrong-error", f"the file does not exist, the task ended with {e!r}")
  elif cfg["extra"]:
    if e is None: raise Violation("no-error", "a track does not exist, the task ended without an error")
  elif rec.failed:
    if not isinstance(e, OSError): raise Violation("wrong-error", f"the file could not be read, the task ended with {e!r}")
  else:
    if e is not None or task.cancelled(): raise Violation("task-died", f"the playback ended with {e!r}")
    complete = True
    if not cfg["realtime"] and ended - begin > stalled + 2.0: raise Violation("slow", f"not in real time, but it took {ended - begin:.1f} s for {media:.1f} s of media")
    head = min([ at for at, _, kind, _ in f.out if kind == "d" ], default=begin)
    if head > begin + stalled + 1.5: raise Violation("slow", f"the first packet was played {head - begin:.2f} s after the start")
  first = [ tracks[i]["packets"][0] * tracks[i]["step"] / tracks[i]["rate"] for i in played if tracks[i]["packets"] ]
  spread = max(first, default=0) - min(first, default=0) # the time of the start is that of the track that gets going first
  low, high = None, None # the common time of the start of the media
  for i in range(len(tracks)):
    t = tracks[i]
    name = f"track {i} ({t['codec']}, {t['rate']}/s)"
    if i not in played:
      if got[i]: raise Violation("wrong-packets", f"{name} is not to be played, {len(got[i])} packets were")
      continue
    have = [ m["packet"]["data"] for _, m in got[i] ]
    want = played_frames(t) if t["packets"] else []
    if len(have) > len(want) or (complete and len(have) < len(want)) or not all(same(x, i, want[k][2], t) for k, x in enumerate(have)):
      raise Violation("wrong-packets", f"{name}: the file holds {[ payload(i, k, t)[:6] for k in range(len(t['packets'])) ]}, played were {[ x[:6] for x in have ]}")
    for k, (at, m) in enumerate(got[i]):
      p = m["packet"]
      pts, rel, _ = want[k]
      exact = float(1000 * (pts - rel) / (t["to"] if t["kind"] == "video" and t.get("transcode") else t["rate"]))
      tick = 0 if t["kind"] == "video" else t["rate"] / 1000 + 1 # a container keeps times in ms
      if abs(p["pts"] - pts) > tick or abs(p["rel_dts"] - rel) > tick: raise Violation("wrong-pts", f"{name}: packet {k} is for {pts} (decoded at {pts - rel}), it was played for {p['pts']} (decoded at {p['pts'] - p['rel_dts']})")
      key = t["codec"] != "mpeg4" or t["transcode"] or encoded()[k][3]
      if not t.get("transcode") and p["is_keyframe"] != key: raise Violation("wrong-key", f"{name}: packet {k} is {'' if key else 'not '}a key frame, it was played as {p['is_keyframe']}")
      lo, hi = m["timestamp"] - exact - 2.1, m["timestamp"] - exact + 2.1
      low, high = (lo, hi) if low is None else (max(low, lo), min(high, hi))
      if low > high: raise Violation("wrong-time", f"{name}: packet {k} is {exact:.1f} ms after the start, its timestamp does not fit to the other packets by {low - high:.1f} ms")
      if cfg["realtime"]:
        due = m["timestamp"] / 1000 - wall
        if at < due - 0.0025: raise Violation("early", f"{name}: packet {k} was played {due - at:.3f} s before its time")
        free = max([ due, begin ] + [ b for a, b in rec.stalls if a <= at ])
        if at > free + 0.15 + spread + stalled * 0.2: raise Violation("late", f"{name}: packet {k} was played {at - free:.3f} s after its time")
  count = sum(len(g) for g in got)
  sim.probe("played", count)
  return { "nontrivial": count >= 8 }


@contextlib.contextmanager
def inside(sim):
  c = sim.case["cfg"]
  with scratch_dir("dst-r"), playback(sim, c["disk"], c["stall"], c["error"]): yield


def run(case, keep_log=False):
  def setup(sim): sim.case = case
  return execute(case, main, keep_log=keep_log, setup=setup, inside=inside, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
