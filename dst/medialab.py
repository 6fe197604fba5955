"""Worker threads that block on queues, put under the simulator's baton."""
from __future__ import annotations

import contextlib
import queue
import time

from dst.sim import SimThread, thread_yield


@contextlib.contextmanager
def thread_queues(sim):
  """queue.Queue.get in a simulated thread blocks in simulated time and is woken by put."""
  get, put, sleep = queue.Queue.get, queue.Queue.put, time.sleep
  waiting = {}
  def sim_get(self, block=True, timeout=None):
    me = getattr(SimThread.local, "me", None)
    if me is None or not block: return get(self, block, timeout)
    end = None if timeout is None else sim.now + timeout
    while True:
      try: item = get(self, False)
      except queue.Empty:
        if end is not None and sim.now >= end: raise
        waiting.setdefault(id(self), []).append(me)
        try: thread_yield(3600.0 if end is None else max(0.0, end - sim.now))
        finally:
          if me in waiting.get(id(self), ()): waiting[id(self)].remove(me)
      else:
        if me.rng.random() < 0.5: thread_yield() # others get to run before it is worked on
        return item
  def sim_put(self, item, block=True, timeout=None):
    put(self, item, block, timeout)
    if waiting.get(id(self)): waiting[id(self)].pop(0).wake()
  def sim_sleep(d):
    if getattr(SimThread.local, "me", None) is None: sleep(d)
    else: thread_yield(d)
  queue.Queue.get, queue.Queue.put, time.sleep = sim_get, sim_put, sim_sleep
  try: yield
  finally: queue.Queue.get, queue.Queue.put, time.sleep = get, put, sleep


class Recording:
  def __init__(self): self.broken, self.count, self.closed, self.failed = [], 0, set(), False
  def check(self):
    if self.broken: raise self.broken[0]


@contextlib.contextmanager
def recording(sim, disk=0.0, error=None):
  """PyAV's output containers: writing a packet takes time in its thread, and closing the file at that moment (which crashes the process) is noticed."""
  import av
  from dst.sim import Violation
  rec = sim.recording = Recording()
  real_open, loop = av.open, sim.loop
  busy = {}
  def mux(real, args):
    me = getattr(SimThread.local, "me", None)
    busy[id(real)] = busy.get(id(real), 0) + 1
    if busy[id(real)] > 1: rec.broken.append(Violation("two-writers", "two packets were written to the file at the same time"))
    try:
      if me is not None and me.rng.random() < 0.5: thread_yield(me.rng.random() * disk)
      if id(real) in rec.closed:
        rec.broken.append(Violation("closed-while-writing", "the file was closed while a packet was being written: the process would crash"))
        return None
      rec.count += 1
      if rec.count == error:
        rec.failed = True
        sim.fault("disk_error")
        raise OSError(5, "Input/output error")
      res = real.mux(*args)
      if me is not None and me.rng.random() < 0.5: thread_yield(me.rng.random() * disk)
      if id(real) in rec.closed: rec.broken.append(Violation("closed-while-writing", "the file was closed while a packet was being written"))
      return res
    finally: busy[id(real)] -= 1
  class Guard:
    def __init__(self, real): object.__setattr__(self, "real", real)
    def __getattr__(self, name): return getattr(object.__getattribute__(self, "real"), name)
    def __setattr__(self, name, value): setattr(object.__getattribute__(self, "real"), name, value)
    def mux(self, *args): return mux(self.real, args)
    def close(self):
      rec.closed.add(id(self.real))
      if busy.get(id(self.real)): keep.append(self.real) # never really closed: the thread is still to come
      else: self.real.close()
  keep = [] # ids stay unique
  def sim_open(file, mode="r", *args, **kw):
    c = real_open(file, mode, *args, **kw)
    if mode != "w": return c
    keep.append(c)
    return Guard(c)
  executor = loop.run_in_executor
  def run_in_executor(pool, func, *args):
    owner = getattr(func, "__self__", None)
    if getattr(func, "__name__", "") == "mux" and not isinstance(owner, Guard): return executor(pool, mux, owner, args)
    return executor(pool, func, *args)
  av.open, loop.run_in_executor = sim_open, run_in_executor
  try: yield
  finally: av.open, loop.run_in_executor = real_open, executor


class Playback(Recording):
  def __init__(self):
    super().__init__()
    self.reading, self.stalls, self.reads = 0, [], 0
  @property
  def open(self): return self.count - len(self.closed)


@contextlib.contextmanager
def playback(sim, disk=0.0, stall=None, error=None):
  """PyAV's input containers: reading a packet takes time in its thread (stall = (packet, seconds)), may fail (error = packet), and closing the file at that moment is noticed."""
  import av
  from dst.sim import Violation
  rec = sim.playback = Playback()
  real_open = av.open
  keep = []
  def read(guard, real):
    it = real.demux()
    while True:
      me = getattr(SimThread.local, "me", None)
      if rec.reading: rec.broken.append(Violation("two-readers", "two threads read the file at the same time"))
      rec.reading += 1
      try:
        rec.reads += 1
        if me is not None:
          if stall is not None and rec.reads == stall[0]:
            rec.stalls.append((sim.now, sim.now + stall[1]))
            sim.fault("disk_stall")
            thread_yield(stall[1])
          elif me.rng.random() < 0.5: thread_yield(me.rng.random() * disk)
        if id(real) in rec.closed:
          rec.broken.append(Violation("closed-while-reading", "the file was closed while a packet was being read: the process would crash"))
          return
        if rec.reads == error:
          rec.failed = True
          sim.fault("disk_error")
          raise OSError(5, "Input/output error")
        try: p = next(it)
        except StopIteration: return
      finally: rec.reading -= 1
      yield p
  class Guard:
    def __init__(self, real): object.__setattr__(self, "real", real)
    def __getattr__(self, name): return getattr(object.__getattribute__(self, "real"), name)
    def __setattr__(self, name, value): setattr(object.__getattribute__(self, "real"), name, value)
    def demux(self): return read(self, self.real)
    def close(self):
      rec.closed.add(id(self.real))
      if not rec.reading: self.real.close()
  def sim_open(file, mode="r", *args, **kw):
    c = real_open(file, mode, *args, **kw)
    if mode != "r": return c
    keep.append(c)
    rec.count += 1
    return Guard(c)
  av.open = sim_open
  try: yield
  finally: av.open = real_open
