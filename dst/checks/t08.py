"""T08: every task a node offers starts as it was configured, is connected as configured while it runs, and outlives any message."""
from __future__ import annotations

import asyncio
import json
import os
import random

from dst.core import execute
from dst.lab import gen_edges
from dst.medialab import thread_queues
from dst.sim import Violation
from dst.tasklab import attach, boot_client, start_net

ID = "T08"
RULE = ("seeded case = loop-free network, 1-3 of the task hosts of the catalogue, 1-4 tasks configured from the metadata the hosts publish (values the editor fields allow, tracks, pairs), inputs connected to sources or to other tasks, "
        "10-40 messages of any kind (valid, of the wrong kind, malformed, extreme times), pauses, delayed links, worker threads slow to wake, stops and restarts; non-trivial when at least one task ran and took 5 messages; distinct by execution fingerprint")
REAL = ["streamtasks.system.tasks (all task hosts and tasks but devices, coders, containers, named topics, inference)", "streamtasks.system.configurators", "streamtasks.system.helpers", "streamtasks.system.task (TaskManager, TaskHost, TaskManagerClient)", "streamtasks.client", "streamtasks.services.discovery", "streamtasks.net"]
STUB = ["event loop, clock, randomness (simulator)", "worker threads and their queues (simulator's baton)", "sockets (simulated byte streams)", "the configurators of the web interface (their rules are followed by the harness)"]
COUNT = { "quick": 12000, "thorough": 800000 }
# devices; what needs files, files' formats or codecs (S09-S11); T06; no model packages here
SKIP = { "AudioInput", "AudioOutput", "ScreenCapture", "VideoInput", "AudioEncoder", "AudioDecoder", "VideoEncoder", "VideoDecoder", "InputContainer", "OutputContainer", "NamedInput", "NamedOutput" }
TEXTS = { "formula": ["1", "1 + 2", "2 * 3"], "pattern": ["", "a", "ab*"], "flags": ["", "i", "m", "im"], "template": ["", "x"], "date_format": ["%d", "%H:%M", ""], "bgcolor_hex": ["#000000", "#ff8800"], "font_color": ["#000000", "#12ab00"],
          "source": [ os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pixel.ppm") ] }
PAYLOADS = [ 5, "text", [], [1, 2], {}, { "timestamp": 5 }, { "value": 1.5 }, { "timestamp": "x" }, { "timestamp": None, "value": 1 }, { "timestamp": 7, "value": None }, { "timestamp": 7, "value": [1] }, { "timestamp": 7, "value": {} },
             { "timestamp": 8, "value": float("nan") }, { "timestamp": 8, "value": float("inf") }, { "timestamp": 9, "value": -1e308 }, { "timestamp": 1e30, "value": 1 }, { "timestamp": float("nan"), "value": 1 }, { "timestamp": float("inf"), "value": 1 }, { "timestamp": -5, "value": 1 },
             { "timestamp": 2**62, "value": 2**62 }, { "timestamp": 10, "value": "" }, { "timestamp": 10, "value": "(*" * 300 }, { "timestamp": 11, "data": "x" }, { "timestamp": 11, "data": b"" }, { "timestamp": 11, "data": b"abc" }, { "timestamp": 11, "data": [ b"a" ] }, { "timestamp": True, "value": True },
             { "timestamp": "12", "value": "3" }, { "timestamp": 13, "value": 1, "extra": { "a": [1] } }, True, 1.5, -1, { "timestamp": 3.7, "value": 0.5 } ]
LIMIT = 20.0
CATALOGUE = []


def gen(rng, tier="quick"):
  n_sw = rng.choice([1, 1, 2, 3])
  def place(): return { "sw": rng.randrange(n_sw), "kind": rng.choice(["queue", "delay"]) }
  hosts = [ { **place(), "pick": rng.random() } for _ in range(rng.randint(1, 3)) ]
  tasks = [ { "host": rng.randrange(len(hosts)), "seed": rng.getrandbits(32) } for _ in range(rng.randint(1, 4)) ]
  ops, t, clock = [], 0.0, rng.choice([0, 1000, 1700000000000])
  for _ in range(rng.randint(10, 40)):
    t += rng.choice([0.0, 0.0, 0.001, 0.01, 0.1, 0.5])
    r = rng.random()
    if r < 0.08: ops.append([round(t, 4), "restart", rng.randrange(len(tasks)), rng.getrandbits(32)])
    elif r < 0.18: ops.append([round(t, 4), "pause", rng.random(), rng.random() < 0.5])
    elif r < 0.25: ops.append([round(t, 4), "look"])
    elif r < 0.6: ops.append([round(t, 4), "junk", rng.random(), rng.randrange(len(PAYLOADS))])
    else:
      clock += rng.choice([0, 1, 10, 100])
      ops.append([round(t, 4), "data", rng.random(), rng.choice(["number", "text", "chunk"]), clock, rng.randrange(1 << 16)])
  return { "seed": rng.getrandbits(48), "cfg": { "switches": n_sw, "edges": gen_edges(rng, n_sw), "hosts": hosts, "tasks": tasks, "tm": place(), "source": place(), "sink": place(), "disc": { **place(), "at": 0 },
           "shuffle": rng.choice([0.0, 0.0, 0.5]), "stall_prob": rng.choice([0.0, 0.0, 0.0005]) }, "ops": ops }


def field_value(rng, f, media):
  """-> a value this editor field lets the user enter, or KeyError"""
  kind, key = f["type"], f.get("key")
  if key == "loop": return False # a thousand messages a second are too many for the slow links
  if kind == "select": return rng.choice(f["items"])["value"]
  if kind == "boolean": return rng.random() < 0.5
  if kind == "text": return rng.choice(TEXTS[key]) if key in TEXTS else rng.choice(["", "abc", "ä\n<b>"])
  if kind in ("number", "slider"):
    lo, hi = f.get("min"), f.get("max")
    if f.get("integer") and lo is not None and rng.random() < 0.08: return lo
    if key.startswith("place_"): return 0 if key.endswith("_offset") else 2
    if lo == 0 and rng.random() < 0.08: return 0
    if media and key in ("width", "height") or key.endswith(("_width", "_height")): return rng.randint(2, 6)
    if media and key.endswith("rate"): return rng.choice([1, 10, 30] if "frame" in f.get("unit", "") or f.get("unit") == "fps" else [1000, 8000])
    if key == "channels" or key.endswith("_channels"): return rng.choice([1, 2])
    if key in ("repeat_interval", "interval"): return rng.choice([0.05, 0.5, 1, 2.5])
    if key == "rate": return rng.choice([0.5, 1, 20])
    lo = -1000 if lo is None else lo
    hi = lo + 2000 if hi is None else hi
    v = rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi)])
    return int(v) if f.get("integer") else rng.choice([v, int(v) if lo <= int(v) <= hi else v])
  raise KeyError(kind)


def configure(rng, meta, name, new_topic, pick_input):
  """What the configurators of the web interface make of a host's metadata. -> (config, input topics, output topics)"""
  media = ".media." in name or ".ui." in name
  def edit(target, fields):
    for f in fields:
      if f["type"] not in ("select", "boolean", "text", "number", "slider"): continue
      forced = f["key"] in TEXTS or f["key"] == "font" or media and f["key"].endswith(("width", "height", "rate", "_offset"))
      if rng.random() < 0.6 or forced: target[f["key"]] = field_value(rng, f, media)
  load = lambda key: json.loads(meta.get(key, "[]"))
  kind = meta["js:configurator"]
  ins, outs = [], []
  def inp():
    ins.append(pick_input())
    return ins[-1]
  def outp():
    outs.append(new_topic())
    return outs[-1]
  if kind == "std:switch":
    pairs = [ { "input": inp(), "control": inp() } for _ in range(rng.choice([0, 1, 2, 3])) ]
    return { "topics": [], "pairs": pairs, "output": outp() }, ins, outs
  if kind == "std:synchronizer": return { "topics": [ [ inp(), outp() ] for _ in range(rng.choice([0, 1, 2, 3])) ] }, ins, outs
  config = json.loads(meta.get("cfg:config", "{}"))
  edit(config, load("cfg:editorfields"))
  for i in load("cfg:inputs"): config[i["key"]] = inp()
  for key in json.loads(meta.get("cfg:outputkeys", "[]")):
    if key is not None: config[key] = outp()
  if kind == "std:multitrackio":
    is_input = meta["cfg:isinput"] == "true"
    keys = []
    for tc in load("cfg:trackconfigs"):
      tracks = config[f"{tc['key']}_tracks"] = []
      for k in range(rng.choice([1, 1, 2, 3] if is_input else [0, 1, 2, 3])): # tasks without any inputs just end
        track = { **tc["defaultConfig"], "_key": f"key{len(keys)}" }
        edit(track, tc["editorFields"])
        track["in_topic" if is_input else "out_topic"] = inp() if is_input else outp()
        if "name" in tc["defaultConfig"]: track["name"] = "abc"[k]
        tracks.append(track)
        keys.append(track["_key"])
    if is_input: config["_trackInputKeys"] = keys
    else: config["_trackOutputMap"] = { k: o for k, o in zip(keys, outs[-len(keys):] if keys else []) }
  return config, ins, outs


def message(kind, clock, n):
  if kind == "number": return { "timestamp": clock, "value": (n % 200) / 100 }
  if kind == "text": return { "timestamp": clock, "value": "abc"[: n % 4] }
  return { "timestamp": clock, "data": bytes(n % 256 for _ in range([4, 16, 48, 64][n % 4])) }


async def main(sim, case):
  import copy
  from streamtasks.client.fetch import FetchError
  from streamtasks.client.receiver import Receiver
  from streamtasks.net.serialization import RawData
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.helpers import get_all_task_hosts
  from streamtasks.system.task import TaskManager, TaskManagerClient, TaskNotFoundError, TaskStatus
  cfg = case["cfg"]
  if not CATALOGUE:
    CATALOGUE.extend(sorted((c for c in get_all_task_hosts() if c.__name__.removesuffix("TaskHost") not in SKIP and ".inference." not in c.__module__), key=lambda c: c.__name__)) # imports everything
  catalogue = CATALOGUE
  switches, d_task, probe = await start_net(sim, cfg)
  services = [ d_task ]
  async def serve(worker, spec, name):
    await attach(sim, switches, worker, spec, name)
    await asyncio.sleep(0.05)
    services.append(asyncio.create_task(worker.run()))
    return worker
  await serve(TaskManager(), cfg["tm"], "tm")
  hosts = []
  for i, spec in enumerate(cfg["hosts"]):
    cls = catalogue[int(spec["pick"] * len(catalogue))]
    if any(type(h) is cls for h in hosts): cls = next(c for c in catalogue if not any(type(h) is c for h in hosts))
    hosts.append(await serve(cls(register_endpoits=[ NetworkAddressNames.TASK_MANAGER ]), spec, f"host{i}"))
  source = await boot_client(sim, switches, cfg["source"], "source")
  sink = await boot_client(sim, switches, cfg["sink"], "sink")
  await asyncio.sleep(0.5)
  tm = TaskManagerClient(probe)
  async def ask(what, aw):
    try: return await asyncio.wait_for(aw, LIMIT)
    except asyncio.TimeoutError: raise Violation("no-answer", f"{what}: no answer within {LIMIT:.0f} s")
  listed = { r.id: r for r in await ask("listing the task hosts", tm.list_task_hosts()) }
  if sorted(listed) != sorted(h.id for h in hosts): raise Violation("hosts", f"listed are {sorted(listed)}, there are {sorted(h.id for h in hosts)}")

  topics, feeds, outputs, got = [], [], [], [0]
  pool = iter(await ask("topic ids", source.request_topic_ids(200)))
  class Tap(Receiver):
    def on_message(self, m): got[0] += 1
  tap = Tap(sink)
  await tap.start_recv()
  for _ in range(4):
    o = source.out_topic(next(pool))
    await o.start()
    await o.set_registered(True)
    topics.append(o.topic)
    feeds.append(o)
  class T: pass
  tasks, taken = [], [0]
  async def start(t, seed):
    rng = random.Random(seed)
    others = [ x for u in tasks if u.id is not None and u is not t for x in u.outs ]
    def pick(): return rng.choice(topics) if not others or rng.random() < 0.75 else rng.choice(others)
    t.host = hosts[t.spec["host"]]
    t.what = type(t.host).__name__.removesuffix("TaskHost")
    t.config, t.ins, t.outs = configure(rng, listed[t.host.id].metadata, f"{type(t.host).__module__}.", lambda: next(pool), pick)
    await sink.register_in_topics(t.outs)
    inst = await ask(f"scheduling {t.what}", tm.schedule_task(t.host.id))
    listeners.append(asyncio.create_task(listen(inst.id)))
    await asyncio.sleep(0.1)
    try: inst = await ask(f"starting {t.what}", tm.start_task(inst.id, copy.deepcopy(t.config)))
    except FetchError as e: raise Violation("not-started", f"{t.what} with {t.config}: {e}")
    if inst.status is not TaskStatus.running: raise Violation("not-started", f"{t.what} with {t.config}: {inst.status.value}, {inst.error}")
    t.id = inst.id
    await asyncio.sleep(1.0)
    await look(t, True)
  async def look(t, settled=False):
    inst = None
    try: inst = await ask(f"asking for {t.what}", tm.get_task(t.id))
    except Violation: raise
    except (FetchError, TaskNotFoundError) as e: raise Violation("task-died", f"{t.what} with {t.config} is no longer there: {e!r}; the host says {why(t)}")
    if inst.status is not TaskStatus.running: raise Violation("task-died", f"{t.what} with {t.config}: {inst.status.value}, {inst.error}")
    if t.id in news and not news[t.id].startswith("running"): raise Violation("task-died", f"{t.what} with {t.config}: {news[t.id]}")
    if settled:
      sw = t.host.switch
      for x in t.outs:
        if x not in sw.out_topics: raise Violation("not-provided", f"{t.what} with {t.config} runs and does not provide its output {x}")
      for x in t.ins if t.what != "VideoViewer" else (): # reads only while somebody watches
        if x not in sw.in_topics: raise Violation("not-subscribed", f"{t.what} with {t.config} runs and does not read its input {x}")
  def why(t): return news.get(t.id)
  news, listeners = {}, []
  async def listen(i):
    async with tm.task_receiver([ i ]) as r:
      while True:
        x = await r.get()
        news[x.id] = f"{x.status.value}: {x.error}"
  async def stop(t):
    try: inst = await ask(f"stopping {t.what}", tm.cancel_task_wait(t.id))
    except Violation: raise
    except (FetchError, TaskNotFoundError) as e: raise Violation("task-died", f"{t.what} with {t.config} could not be stopped: {e!r}; {why(t)}")
    if inst.status is not TaskStatus.stopped: raise Violation("task-died", f"{t.what} with {t.config} was stopped: {inst.status.value}, {inst.error}")
    t.id = None
    await asyncio.sleep(0.3)
    for x in t.outs:
      if x in t.host.switch.out_topics: raise Violation("still-provided", f"{t.what} is stopped, its output {x} is still provided")
    others = { x for u in tasks if u is not t for x in [ *u.outs, *(u.ins if u.id is not None else []) ] } # the sink reads all outputs
    for x in t.ins:
      if x not in others and x in t.host.switch.in_topics: raise Violation("still-subscribed", f"{t.what} is stopped, its input {x} is still read")
  for spec in cfg["tasks"]:
    t = T()
    t.spec, t.id, t.outs, t.ins = spec, None, [], []
    tasks.append(t)
    await start(t, spec["seed"])
  t0 = sim.now
  for op in case["ops"]:
    at, kind, *rest = op
    if t0 + at > sim.now: await asyncio.sleep(t0 + at - sim.now)
    if kind == "restart":
      t = tasks[rest[0] % len(tasks)]
      await stop(t)
      await start(t, rest[1])
    elif kind == "look":
      await asyncio.sleep(0.5)
      for t in tasks: await look(t, True)
    else:
      used = [ f for f in feeds if any(f.topic in t.ins for t in tasks) ]
      if not used: continue
      f = used[int(rest[0] * len(used))]
      taken[0] += 1
      if kind == "pause": await f.set_paused(rest[1])
      elif kind == "junk": await f.send(RawData(copy.deepcopy(PAYLOADS[rest[1]])))
      else: await f.send(RawData(message(*rest[1:])))
  await asyncio.sleep(1.5)
  for t in tasks: await look(t, True)
  for t in tasks: await stop(t)
  for l in listeners: l.cancel()
  for s in services:
    if s.done(): raise Violation("service-died", f"a service ended: {s}")
  sim.probe("out", got[0])
  sim.states.add(tuple(sorted(t.what for t in tasks)))
  return { "nontrivial": taken[0] >= 5 }


def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, inside=thread_queues, sim_opts={ "shuffle": cfg["shuffle"], "stall_prob": cfg["stall_prob"], "stall_max": 0.05 })
