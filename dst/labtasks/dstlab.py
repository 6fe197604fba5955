"""A task host that a node finds among its own (the directory is put on the path of streamtasks.system.tasks for a run): scripted tasks that tell LAB what happens to them."""
import asyncio

from streamtasks.env import NODE_NAME
from streamtasks.net.serialization import RawData
from streamtasks.system.task import Task, TaskHost


class Lab:
  """What happened to every task, over all nodes."""
  def __init__(self): self.recs, self.sim = [], None


LAB = Lab()


class Rec:
  def __init__(self, node, config): self.node, self.config, self.begun, self.ended, self.sent, self.got = node, config, None, None, [], []


class DstlabTask(Task):
  def __init__(self, client, rec):
    super().__init__(client)
    self.rec = rec

  async def run(self):
    rec, c, sim = self.rec, self.rec.config, LAB.sim
    rec.begun = sim.now
    try:
      self.client.start()
      if c["kind"] == "src":
        out = self.client.out_topic(c["out"])
        async with out, out.RegisterContext():
          while True:
            await asyncio.sleep(c["every"])
            rec.sent.append(sim.now)
            await out.send(RawData({ "n": c["n"], "i": len(rec.sent) - 1 }))
      elif c["kind"] == "sink":
        topic = self.client.in_topic(c["in"])
        async with topic, topic.RegisterContext():
          while True: rec.got.append((sim.now, (await topic.recv_data()).data))
      elif c["kind"] == "slow": # takes its time to stop
        try: await asyncio.Future()
        finally: await asyncio.sleep(c["d"])
      else: await asyncio.Future()
    finally: rec.ended = sim.now


class DstlabTaskHost(TaskHost):
  def __init__(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.node = NODE_NAME()

  @property
  def metadata(self): return { "cfg:label": "dstlab" }

  async def create_task(self, config, topic_space_id):
    rec = Rec(self.node, config)
    LAB.recs.append(rec)
    return DstlabTask(await self.create_client(topic_space_id), rec)
