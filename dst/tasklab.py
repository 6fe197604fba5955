"""A task system (discovery, task manager, task hosts with scripted tasks) on a simulated network."""
from __future__ import annotations

import asyncio
import os

from dst.checks.d01 import start_discovery
from dst.lab import EdgeRt, client_link, connect_edge, make_switches
from dst.sim import Violation


async def attach(sim, switches, worker, spec, name):
  """Connect a worker's own switch to the network, as SystemBuilder does."""
  from streamtasks.net import create_queue_connection
  from dst.netlab import delay_pair
  a, b = create_queue_connection() if spec["kind"] == "queue" else delay_pair(sim, name, 1)
  await asyncio.gather(worker.switch.add_link(a), switches[spec["sw"]].add_link(b))
  return b


async def boot_client(sim, switches, spec, name):
  from streamtasks.client import Client
  from streamtasks.client.discovery import wait_for_topic_signal
  from streamtasks.services.constants import NetworkTopics
  c = Client(await client_link(sim, switches[spec["sw"]], spec["kind"], name))
  c.start()
  await wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)
  await c.request_address()
  return c


async def start_net(sim, cfg):
  switches = make_switches(sim, cfg)
  for i, s in enumerate(cfg["edges"]): await connect_edge(sim, switches, EdgeRt(s, i))
  _, d_task = await start_discovery(sim, switches, cfg["disc"])
  probe = await boot_client(sim, switches, { "sw": cfg["switches"] - 1, "kind": "queue" }, "probe")
  await asyncio.sleep(0.3)
  return switches, d_task, probe


class Rec:
  """What really happened to one task object on a host."""
  def __init__(self, host, config, space):
    self.host, self.config, self.space = host, config, space
    self.setup, self.runs, self.begun, self.ended, self.outcome, self.cancels = False, 0, None, None, None, 0
    self.address = self.topic = None # what it has on the network


def make_host(sim, name, recs, endpoints, real_id=None):
  """A task host with scripted tasks; real_id = (class name, node name): its id is what the code makes of these, otherwise name."""
  from streamtasks.system.task import Task, TaskHost

  class LabTask(Task):
    def __init__(self, client, rec):
      super().__init__(client)
      self.rec = rec
    async def setup(self):
      mode = self.rec.config["mode"]
      if self.rec.config.get("net") == "setup": await self.go_online()
      if mode == "setup-fail": raise RuntimeError(f"setup failed {self.rec.config['n']}")
      if mode == "setup-slow": await asyncio.sleep(2.5)
      if mode == "setup-wait": await asyncio.sleep(self.rec.config["d"])
      self.rec.setup = True
      return { "n": self.rec.config["n"], "file:/x": "y" }
    async def go_online(self):
      self.client.start()
      self.rec.address = await self.client.request_address()
      topic = (await self.client.request_topic_ids(1))[0]
      await self.client.register_out_topics([ topic ])
      self.rec.topic = topic
    async def run(self):
      rec, mode, d = self.rec, self.rec.config["mode"], self.rec.config["d"]
      rec.runs += 1
      rec.begun = sim.now
      try:
        if rec.config.get("net") == "run": await self.go_online()
        if mode == "end": await asyncio.sleep(d)
        elif mode == "fail":
          await asyncio.sleep(d)
          raise ValueError(f"run failed {rec.config['n']}")
        elif mode == "instafail": raise ValueError(f"run failed {rec.config['n']}")
        elif mode in ("forever", "setup-wait"): await asyncio.Future()
        elif mode in ("stubborn", "swallow"):
          try: await asyncio.Future()
          except asyncio.CancelledError:
            rec.cancels += 1
            await asyncio.sleep(d)
            if mode == "stubborn": raise
        rec.outcome = ("ended", None)
      except asyncio.CancelledError:
        rec.outcome = ("stopped", None)
        raise
      except ValueError as e:
        rec.outcome = ("failed", str(e))
        raise
      finally: rec.ended = sim.now

  class LabHost(TaskHost):
    on_registered, registering, extra, routes = None, 0, {}, None
    leaving = overlapped = False # a registration was under way while the host was leaving
    async def register_routes(self, router):
      if self.routes is not None: await self.routes(router)
    async def register(self, *args, **kwargs):
      self.registering += 1 # stays when it is cut short
      self.overlapped = self.overlapped or self.leaving
      await super().register(*args, **kwargs)
      self.registering -= 1
      self.overlapped = self.overlapped or self.leaving
      if self.on_registered is not None: self.on_registered()
    @property
    def metadata(self): return { "name": name, **self.extra }
    async def create_task(self, config, topic_space_id):
      rec = Rec(name, config, topic_space_id)
      recs.append(rec)
      if config["mode"] == "create-fail": raise RuntimeError(f"create failed {config['n']}")
      return LabTask(await self.create_client(topic_space_id), rec)

  if real_id is None:
    host = LabHost(register_endpoits=endpoints)
    host.id = name
    return host
  LabHost.__name__ = real_id[0]
  node = os.environ.get("NODE_NAME")
  os.environ["NODE_NAME"] = real_id[1]
  try: return LabHost(register_endpoits=endpoints)
  finally:
    if node is None: del os.environ["NODE_NAME"]
    else: os.environ["NODE_NAME"] = node


def make_tap(client):
  """Everything about tasks that reaches a client, in order of arrival: (kind, task id, status)."""
  from streamtasks.client.receiver import Receiver
  from streamtasks.net.messages import AddressedMessage, TopicDataMessage
  class Tap(Receiver):
    def __init__(self):
      super().__init__(client)
      self.events = []
    def on_message(self, message):
      if isinstance(message, AddressedMessage): d, kind = message.data.data, "answer"
      elif isinstance(message, TopicDataMessage): d, kind = message.data.data, "news"
      else: return
      if kind == "answer": d = d.get("body") if isinstance(d, dict) else None
      if isinstance(d, dict) and "status" in d and "id" in d: self.events.append((kind, str(d["id"]), d["status"]))
  return Tap()


async def settle_call(coro, limit, what):
  """Result of coro as ("ok", value) or ("err", exception); a violation when it does not return in time."""
  t = asyncio.create_task(coro)
  await asyncio.wait([ t ], timeout=limit)
  if not t.done(): raise Violation("no-answer", f"{what} did not return within {limit} s")
  if t.cancelled(): raise Violation("no-answer", f"{what} was cancelled from inside")
  if t.exception() is not None: return "err", t.exception()
  return "ok", t.result()
