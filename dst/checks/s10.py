"""S10: a recording holds what its tracks carried, in order, at the time it was sent, and is complete when the task has ended."""
from __future__ import annotations

import asyncio
import contextlib
import os

from dst.core import execute
from dst.flowlab import IN0, Flow, gen_net
from dst.medialab import recording
from dst.sim import Violation
from dst.weblab import scratch_dir

ID = "S10"
RULE = ("seeded case = loop-free network, an output container with 1-3 video and audio tracks of several codecs, rates and container formats, 10-80 packets in bursts with rounded and jittering timestamps, gaps, reordering, tracks that start late, pause and resume, outdated and malformed messages, "
        "a slow disk or a full one, a destination from a secret that may be missing, stop at any moment, also while a packet is being written; non-trivial when at least 8 packets were recorded; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks.media.outputcontainer", "streamtasks.media.container (OutputContainer)", "streamtasks.media.packet", "streamtasks.system.secret_manager (client)", "PyAV with its muxers on a scratch directory", "streamtasks.client", "streamtasks.net"]
STUB = ["event loop, clock (simulator)", "executor threads (run under the simulator's baton)", "the secret manager (scripted)", "sockets (simulated byte streams)", "task host (the task object is run directly)"]
COUNT = { "quick": 6000, "thorough": 400000 }
JUNK = [ "text", {}, { "timestamp": 5 }, { "timestamp": 5, "packet": {} }, { "timestamp": 5, "packet": b"12" }, { "timestamp": "x", "packet": { "data": b"", "pts": 0, "rel_dts": 0, "is_keyframe": True } }, { "timestamp": 5, "packet": { "data": 5, "pts": 0, "rel_dts": 0, "is_keyframe": True } } ]
SIZE = 64
FORMAT = { "rawvideo": "gray", "ffv1": "yuv420p", "mpeg4": "yuv420p", "mjpeg": "yuvj420p", "pcm_s16le": "s16", "aac": "fltp" }


def gen(rng, tier="quick"):
  n = rng.choice([1, 2, 2, 2, 3])
  tracks = []
  for _ in range(n):
    if rng.random() < 0.5: tracks.append({ "kind": "video", "codec": rng.choice(["rawvideo", "mjpeg", "mpeg4", "ffv1"]), "rate": rng.choice([10, 25, 30, 50]) })
    else: tracks.append({ "kind": "audio", "codec": rng.choice(["pcm_s16le", "aac"]), "rate": rng.choice([8000, 16000, 48000]), "channels": rng.choice([1, 2]) })
  tracks.sort(key=lambda t: t["kind"] == "audio") # the task adds the video tracks first
  for t in tracks:
    t["frame"] = 1000 / t["rate"] if t["kind"] == "video" else 1024000 / t["rate"] if t["codec"] == "aac" else 20.0
    t["reorder"] = t["codec"] == "mpeg4" and rng.random() < 0.5
  jitter = rng.choice([0, 0, 2])
  clock = rng.choice([1000, 1700000000000])
  late = [ rng.choice([0, 0, 3, 40, 700]) for _ in tracks ]
  late = [ x - min(late) for x in late ]
  length = rng.choice([300, 800, 2000])
  events = [] # (time of the media, track, what)
  for i, t in enumerate(tracks):
    pos, at, paused = 0, late[i], None
    gap = rng.random() < 0.4
    pausing = n > 1 and rng.random() < 0.4
    while True:
      at = late[i] + pos * t["frame"]
      if at > length + late[i]: break
      if paused is not None and pos >= paused:
        events.append((at - 0.5, i, "resume"))
        paused = None
      if paused is None: events.append((at, i, "data", int(at) + (rng.randint(0, jitter) if jitter else 0)))
      if pos >= 1 and paused is None and pausing and rng.random() < 0.08:
        events.append((at + 0.2, i, "pause"))
        paused = pos + rng.randint(2, 30)
      pos += 1 + (rng.randint(1, int(200 / t["frame"]) + 1) if gap and rng.random() < 0.1 else 0)
      if len(events) > 120: break
    if paused is None and rng.random() < 0.6: events.append((at + 1, i, "pause"))
  events.sort(key=lambda e: e[0])
  events = events[:90]
  ops, t, speed = [], 0.0, rng.choice([0.0, 0.1, 1.0])
  last = None
  for e in events:
    if last is not None: t += (e[0] - last) / 1000 * speed + rng.choice([0.0, 0.0, 0.0, 0.0005, 0.004, 0.03])
    last = e[0]
    if rng.random() < 0.04: ops.append([round(t, 4), "junk", e[1], rng.randrange(len(JUNK))])
    ops.append([round(t, 4), e[2], e[1], clock + e[3]] if e[2] == "data" else [round(t, 4), e[2], e[1]])
    if rng.random() < 0.03: ops.append([round(t, 4), "old", e[1], rng.choice([1, 30])])
  if rng.random() < 0.6: ops.append([round(t, 4), "settle"])
  elif ops: del ops[rng.randint(len(ops) // 2, len(ops)):]
  frames = max(x["frame"] for x in tracks)
  return { "seed": rng.getrandbits(48), "cfg": { **gen_net(rng, n), "tracks": tracks, "format": rng.choice(["nut", "matroska"]), "desync": int(frames) + rng.choice([10, 100, 400]), "jitter": jitter,
                                                "disk": rng.choice([0.0, 0.0, 0.001, 0.02]), "dest": rng.choice(["file"] * 8 + ["full", "nowhere", "secret", "nosecret"]), "error": rng.choice([None, None, None, 1, 5, 20]), "disc": { "sw": 0, "kind": "queue" } }, "ops": ops }


async def main(sim, case):
  import av
  from streamtasks.client.fetch import FetchError, FetchRequest, FetchServer, new_fetch_body_not_found
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.client.discovery import address_name_context
  from streamtasks.system.tasks.media.outputcontainer import OutputContainerConfig, OutputContainerTask
  cfg, tracks, n = case["cfg"], case["cfg"]["tracks"], len(case["cfg"]["tracks"])
  d = os.environ["dst-r"]
  path = { "full": "/dev/full", "nowhere": d + "/no/such/dir.nut" }.get(cfg["dest"], d + "/rec." + cfg["format"])
  conf = { "destination": path, "max_desync": cfg["desync"], "container_options": { "format": cfg["format"] }, "video_tracks": [], "audio_tracks": [] }
  for i, t in enumerate(tracks):
    if t["kind"] == "video": conf["video_tracks"].append({ "in_topic": IN0 + i, "pixel_format": FORMAT[t["codec"]], "encoder": t["codec"], "codec": t["codec"], "width": 8, "height": 8, "rate": t["rate"] })
    else: conf["audio_tracks"].append({ "in_topic": IN0 + i, "sample_format": FORMAT[t["codec"]], "encoder": t["codec"], "codec": t["codec"], "rate": t["rate"], "channels": t["channels"] })
  switches = None
  if cfg["dest"] in ("secret", "nosecret"):
    from uuid import UUID
    from dst.tasklab import boot_client, start_net
    switches, _, _ = await start_net(sim, cfg)
    keeper = await boot_client(sim, switches, cfg["sink"], "keeper")
    secret = UUID(int=7, version=4)
    server = FetchServer(keeper)
    @server.route("get_secret")
    async def _(req: FetchRequest):
      if cfg["dest"] == "secret" and str(req.body["id"]) == str(secret): await req.respond({ "id": str(secret), "value": path[len(d) + 1:], "label": "x" })
      else: await req.respond_error(new_fetch_body_not_found("secret not found!"))
    serving = asyncio.create_task(server.run())
    naming = address_name_context(keeper, NetworkAddressNames.SECRET_MANAGER, keeper.address)
    await naming.__aenter__()
    await asyncio.sleep(0.3)
    conf |= { "destination": d + "/", "destination_secret": secret }
  f = Flow(sim, cfg, n, 0)
  f.alive = lambda: None
  await f.start(lambda c: OutputContainerTask(c, OutputContainerConfig.model_validate(conf)), switches)
  task = f.task
  if cfg["dest"] == "nosecret":
    await asyncio.sleep(3.0)
    if not task.done() or task.cancelled(): raise Violation("no-error", "the secret does not exist, the task goes on")
    e = task.exception()
    if not isinstance(e, FetchError): raise Violation("wrong-error", f"the secret does not exist, the task ended with {type(e).__name__}: {e}")
    return { "nontrivial": False }
  def died():
    if sim.recording.failed: return
    if task.done() and cfg["dest"] not in ("full", "nowhere"): raise Violation("task-died", f"the recording ended by itself: {task.exception()!r}")
  sent, paused, resumed = [ [] for _ in range(n) ], [False] * n, [False] * n # resumed: since its last packet
  slack = 2 * max(t["frame"] for t in tracks) + 5
  async def settle(): await asyncio.sleep(2.0 + sum(len(s) for s in sent) * cfg["disk"] * 2)
  t0 = sim.now
  for op in case["ops"]:
    if t0 + op[0] > sim.now: await asyncio.sleep(t0 + op[0] - sim.now)
    if op[1] == "settle":
      await settle()
      continue
    i = op[2]
    if op[1] == "pause":
      if not paused[i] and sent[i]:
        paused[i] = True
        await f.pause(i, True)
    elif op[1] == "resume":
      # it goes on where the others are: only when it was done before, and nothing else is sent meanwhile
      if paused[i] and all(sent) and all(paused[j] or s[-1][0] > sent[i][-1][0] + slack for j, s in enumerate(sent) if j != i):
        await settle()
        paused[i], resumed[i] = False, True
        await f.pause(i, False)
        await settle()
        t0 = max(t0, sim.now - op[0])
    elif op[1] == "junk":
      d = JUNK[op[3]]
      if isinstance(d, dict) and d.get("timestamp") == 5:
        if not sent[i] or paused[i]: continue
        d = { **d, "timestamp": sent[i][-1][0] } # it has its time, but not the content
      await f.send(i, d)
    elif op[1] == "old":
      if sent[i] and not paused[i] and not resumed[i]: await f.send(i, message(i, 9999, sent[i][-1][0] - op[3], tracks[i]))
    elif not paused[i] and (not sent[i] or op[3] > sent[i][-1][0]):
      m = message(i, len(sent[i]), op[3], tracks[i])
      resumed[i] = False
      sent[i].append((op[3], m["packet"]["data"], m["packet"]["rel_dts"]))
      await f.send(i, m)
  settled = bool(case["ops"]) and case["ops"][-1][1] == "settle"
  died()
  if sim.recording.failed: await asyncio.wait([ task ], timeout=5.0)
  if sim.recording.failed and not task.done(): raise Violation("no-error", "a packet could not be written, the task goes on")
  failed = sim.recording.failed
  task.cancel()
  await asyncio.wait([ task ], timeout=10.0)
  if not task.done(): raise Violation("task-stuck", "the recording does not end within 10 s of being cancelled")
  e = None if task.cancelled() else task.exception()
  await asyncio.sleep(1.0)
  sim.recording.check()
  started = all(sent)
  need = [ required(i, sent, paused, tracks) if settled and started else 0 for i in range(n) ]
  if cfg["dest"] in ("full", "nowhere"):
    if any(need) and not isinstance(e, OSError): raise Violation("no-error", f"nothing can be written, the task ended with {e!r}")
    return { "nontrivial": False }
  if sim.recording.failed and not failed: # while it was being stopped
    need, e = [ 0 ] * n, None
  elif failed:
    if not isinstance(e, OSError): raise Violation("wrong-error", f"a packet could not be written, the task ended with {e!r}")
    need = [ 0 ] * n
  elif e is not None: raise Violation("task-died", f"the recording failed on its way out: {type(e).__name__}: {str(e)[:200]}")
  elif not task.cancelled(): raise Violation("not-cancelled", "the task was cancelled, it shows as having ended by itself")
  got = [ [] for _ in range(n) ]
  if os.path.exists(path) and os.path.getsize(path):
    with av.open(path, "r") as c:
      if len(c.streams) != n: raise Violation("wrong-tracks", f"{n} tracks were recorded, the file has {len(c.streams)}")
      if c.duration is None and any(need): raise Violation("not-finished", "the file has no length: it was not completed")
      for p in c.demux():
        if p.size: got[p.stream_index].append((float(p.pts * p.time_base) * 1000, bytes(p)))
  if not started and any(got): raise Violation("wrong-packets", "something was recorded that was not sent")
  base = min([ s[0][0] for s in sent if s ], default=0)
  for i, t in enumerate(tracks):
    name = f"track {i} ({t['codec']}, {t['rate']}/s)"
    data = [ x for _, x in got[i] ]
    if data != [ s[1] for s in sent[i] ][:len(data)]: raise Violation("wrong-packets", f"{name}: the packets sent were {[ s[1][:6] for s in sent[i] ]}, the file holds {[ x[:6] for x in data ]}")
    if len(data) < need[i]: raise Violation("missing", f"{name}: {need[i]} packets were to be recorded by the time it was stopped, the file holds {len(data)} of {len(sent[i])}")
    tick = t["frame"] if t["kind"] == "video" else 1000 / t["rate"]
    behind = 0.0
    for k, (at, _) in enumerate(got[i]):
      want = sent[i][k][0] - base
      behind = max(want, behind + t["frame"] if k else 0) # when packets come faster than the rate
      at -= sent[i][k][2] * tick
      if not want - tick - 1.6 <= at <= behind + 1.6: raise Violation("wrong-time", f"{name}: packet {k} was sent {want} ms after the start, in the file it is at {at:.1f} ms")
  count = sum(len(g) for g in got)
  sim.probe("recorded", count)
  return { "nontrivial": count >= 8 }


def message(i, k, ts, t):
  rel = (k * 7 % 3) if t["reorder"] else 0
  return { "timestamp": ts, "packet": { "data": (b"%d:%04d" % (i, k)).ljust(SIZE, b"."), "pts": 12345, "rel_dts": rel, "is_keyframe": k % 5 == 0 } }


def required(i, sent, paused, tracks):
  """How many packets of track i must be in the file: those that no other running track holds up."""
  slack = 2 * max(t["frame"] for t in tracks) + 5
  hold = min([ sent[j][-1][0] for j in range(len(sent)) if j != i and not paused[j] ], default=None)
  # a paused track has been dealt with up to its pause once every running one is past that
  return sum(1 for ts, _, _ in sent[i] if hold is None or ts <= hold - slack)


@contextlib.contextmanager
def inside(sim):
  with scratch_dir("dst-r"), recording(sim, sim.case["cfg"]["disk"], sim.case["cfg"]["error"]): yield


def run(case, keep_log=False):
  def setup(sim): sim.case = case
  return execute(case, main, keep_log=keep_log, setup=setup, inside=inside, sim_opts={ "shuffle": case["cfg"]["shuffle"], "stall_prob": case["cfg"]["stall_prob"], "stall_max": 0.05 })
