"""Deterministic simulator: virtual-time, seeded asyncio event loop plus every
other source of nondeterminism the code under test touches (clocks, randomness,
task order, threads).  One integer seed is one exactly repeatable execution.
"""
from __future__ import annotations

import asyncio
import asyncio.base_events
import contextlib
import contextvars
import gc
import heapq
import os
import random
import signal
import sys
import threading
import time
import zlib

real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
_real_time_ns = time.time_ns
_real_monotonic_ns = time.monotonic_ns
_real_urandom = os.urandom

EPOCH = 1_700_000_000.0
current_node: contextvars.ContextVar[str] = contextvars.ContextVar("sim_node", default="")
_active: "Sim | None" = None


class Violation(Exception):
  """The property under check does not hold in this run."""
  def __init__(self, kind: str, message: str = ""):
    super().__init__(f"{kind}: {message}" if message else kind)
    self.kind = kind
    self.message = message


class SimStopped(BaseException):
  """Raised out of the loop when a run is cut short (step cap, wall alarm)."""


class WallAlarm(BaseException):
  pass


def sub_rng(*parts) -> random.Random:
  """Independent random stream named by its parts; removing an operation from a
  schedule therefore does not shift the draws of the others (needed to shrink)."""
  return random.Random("\x1f".join(str(p) for p in parts))


class _HashMixin:
  pass


class SimTask(asyncio.Task):
  # id()-based hashes would make iteration over sets of tasks depend on addresses
  def __init__(self, coro, *, loop, name=None, context=None):
    self._sim_seq = loop.next_seq()
    super().__init__(coro, loop=loop, name=name, context=context)
  def __hash__(self): return self._sim_seq
  def __eq__(self, other): return self is other


class SimFuture(asyncio.Future):
  def __init__(self, *, loop):
    self._sim_seq = loop.next_seq()
    super().__init__(loop=loop)
  def __hash__(self): return self._sim_seq
  def __eq__(self, other): return self is other


def _is_task_step(handle) -> bool:
  cb = handle._callback
  if type(cb).__name__ == "TaskStepMethWrapper": return True
  return isinstance(getattr(cb, "__self__", None), asyncio.Task)


def _handle_name(handle) -> str:
  cb = handle._callback
  owner = getattr(cb, "__self__", None)
  if isinstance(owner, asyncio.Task):
    coro = owner.get_coro()
    return getattr(coro, "__qualname__", "task")
  return getattr(cb, "__qualname__", None) or type(cb).__name__


class SimLoop(asyncio.base_events.BaseEventLoop):
  def __init__(self, sim: "Sim"):
    self._sim_seq_counter = 0
    super().__init__()
    self.sim = sim
    self._now = 1000.0
    self.set_task_factory(lambda loop, coro, **kw: SimTask(coro, loop=loop, **kw))
    self.set_exception_handler(self._on_loop_exception)
    self._clock_resolution = 1e-9

  def next_seq(self):
    self._sim_seq_counter += 1
    return self._sim_seq_counter

  # -- plumbing BaseEventLoop needs
  def _process_events(self, event_list): pass
  def _write_to_self(self): pass
  def create_future(self): return SimFuture(loop=self)
  def time(self): return self._now

  def _on_loop_exception(self, loop, context):
    self.sim.loop_errors.append((context.get("message", ""), repr(context.get("exception"))))

  # -- scheduling
  def _run_once(self):
    sim = self.sim
    sched = self._scheduled
    ready = self._ready
    while sched and sched[0]._cancelled:
      h = heapq.heappop(sched)
      h._scheduled = False
      self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
    if not ready:
      if self._stopping: return
      if not sched:
        sim.deadlocked = True
        self._stopping = True
        return
      when = sched[0]._when
      if when > self._now:
        self._now = when
        if sim.stall_prob and sim.sched_rng.random() < sim.stall_prob:
          # the whole process is descheduled: timers fire late, in a bunch
          d = sim.sched_rng.random() * sim.stall_max
          self._now += d
          sim.fault("process_stall")
    while sched and sched[0]._when <= self._now:
      h = heapq.heappop(sched)
      h._scheduled = False
      if h._cancelled:
        self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
        continue
      ready.append(h)
    if not ready: return
    if sim.shuffle and len(ready) > 1 and sim.sched_rng.random() < sim.shuffle:
      # the order in which runnable tasks get to run is not fixed by asyncio's
      # contract; callbacks scheduled with call_soon keep their FIFO order.
      w = min(len(ready), 8)
      cand = [ i for i in range(w) if _is_task_step(ready[i]) ]
      if cand:
        i = cand[sim.sched_rng.randrange(len(cand))]
        # never overtake a plain callback
        for j in range(i):
          if not _is_task_step(ready[j]):
            i = 0
            break
        if i:
          h = ready[i]
          del ready[i]
          sim.reorders += 1
        else: h = ready.popleft()
      else: h = ready.popleft()
    else:
      h = ready.popleft()
    if h._cancelled: return
    sim.steps += 1
    self._now += sim.step_cost
    if sim.steps > sim.max_steps:
      raise SimStopped("step cap")
    sim.trace_step(h)
    h._run()
    h = None

  def call_soon_threadsafe(self, callback, *args, context=None):
    return self.call_soon(callback, *args, context=context)

  # -- threads: one baton, the simulator decides who holds it
  def run_in_executor(self, executor, func, *args):
    fut = self.create_future()
    SimThread(self.sim, fut, func, args, current_node.get())
    return fut

  async def shutdown_default_executor(self, timeout=None): pass
  async def getaddrinfo(self, host, port, **kw):
    return [(2, 1, 6, "", (host, port))]

  # -- network (bound by simnet)
  async def create_connection(self, protocol_factory, host=None, port=None, **kw):
    return await self.sim.net.create_connection(self, protocol_factory, ("tcp", host, port), kw)
  async def create_unix_connection(self, protocol_factory, path=None, **kw):
    return await self.sim.net.create_connection(self, protocol_factory, ("unix", str(path)), kw)
  async def create_server(self, protocol_factory, host=None, port=None, **kw):
    return await self.sim.net.create_server(self, protocol_factory, ("tcp", host, port), kw)
  async def create_unix_server(self, protocol_factory, path=None, **kw):
    return await self.sim.net.create_server(self, protocol_factory, ("unix", str(path)), kw)


class _ThreadKill(BaseException): pass


class SimThread:
  """A worker thread that runs only while it holds the simulator's baton: it is
  started and resumed by event-loop events and gives the baton back whenever it
  calls thread_yield() (or finishes)."""
  local = threading.local()

  def __init__(self, sim, fut, func, args, node):
    self.sim, self.fut, self.func, self.args, self.node = sim, fut, func, args, node
    self._go = threading.Event()
    self._back = threading.Event()
    self.done = False
    self.killed = False
    self.rng = sub_rng(sim.seed, "thread", len(sim.threads))
    sim.threads.append(self)
    self.thread = threading.Thread(target=self._main, daemon=True)
    sim.loop.call_later(self.rng.random() * 0.002, self._step)

  def _main(self):
    self._go.wait()
    self._go.clear()
    SimThread.local.me = self
    res, exc = None, None
    if not self.killed:
      try: res = self.func(*self.args)
      except _ThreadKill: pass
      except BaseException as e: exc = e
    self.done = True
    self._result = (res, exc)
    self._back.set()

  def _step(self):
    if self.done: return
    if not self.thread.is_alive():
      if self.fut.cancelled(): # as with an executor: what has not begun is not done
        self.done = True
        return
      self.thread.start()
    self._go.set()
    self._back.wait()
    self._back.clear()
    if self.done:
      self.thread.join()
      res, exc = self._result
      if self.killed or self.fut.cancelled() or self.fut.done(): return
      if exc is not None: self.fut.set_exception(exc)
      else: self.fut.set_result(res)

  def _yield(self, delay):
    self.timer = self.sim.loop.call_later(delay, self._step)
    self._back.set()
    self._go.wait()
    self._go.clear()
    if self.killed: raise _ThreadKill()

  def wake(self):
    """Called by whoever holds the baton: what the thread blocks on is there."""
    self.timer.cancel()
    self.timer = self.sim.loop.call_later(self.rng.random() * self.rng.choice([0.0, 0.0005, 0.02]), self._step)

  def kill(self):
    if self.done: return
    self.killed = True
    if not self.thread.is_alive():
      self.done = True
      return
    for _ in range(1000):
      if self.done: break
      self._go.set()
      self._back.wait(5)
      self._back.clear()


def thread_yield(delay: float | None = None):
  me: SimThread = SimThread.local.me
  me._yield(me.rng.random() * 0.003 if delay is None else delay)


class Sim:
  def __init__(self, seed, *, shuffle: float = 0.0, step_cost: float = 2e-6, max_steps: int = 400_000,
               stall_prob: float = 0.0, stall_max: float = 0.0, keep_log: bool = False):
    self.seed = seed
    self.shuffle = shuffle
    self.step_cost = step_cost
    self.max_steps = max_steps
    self.stall_prob, self.stall_max = stall_prob, stall_max
    self.sched_rng = sub_rng(seed, "sched")
    self.entropy = sub_rng(seed, "entropy")
    self.steps = 0
    self.reorders = 0
    self.deadlocked = False
    self.loop_errors: list[tuple[str, str]] = []
    self.faults: dict[str, int] = {}
    self.probes: dict[str, int] = {}
    self.crc = 0
    self.keep_log = keep_log
    self.log: list[str] = []
    self.threads: list[SimThread] = []
    self.clock_offset: dict[str, float] = {}
    self.wall_jump = 0.0
    self.states: set = set()
    self.loop = SimLoop(self)
    from dst.simnet import SimNet
    self.net = SimNet(self)

  # -- recording (never draws randomness, never reads a real clock)
  def trace_step(self, h):
    s = f"{self.loop._now:.9f} {_handle_name(h)}"
    self.crc = zlib.crc32(s.encode(), self.crc)
    if self.keep_log: self.log.append(s)
  def note(self, text: str):
    self.crc = zlib.crc32(text.encode(), self.crc)
    if self.keep_log: self.log.append(f"{self.loop._now:.6f} ## {text}")
  def fault(self, kind: str, n: int = 1): self.faults[kind] = self.faults.get(kind, 0) + n
  def probe(self, kind: str, n: int = 1): self.probes[kind] = self.probes.get(kind, 0) + n
  def rng(self, *parts): return sub_rng(self.seed, *parts)

  # -- clock
  @property
  def now(self): return self.loop._now
  def wall(self): return EPOCH + self.loop._now + self.wall_jump + self.clock_offset.get(current_node.get(), 0.0)
  def wall_ns(self): return int(self.wall() * 1_000_000) * 1000
  def now_ms(self): return self.wall_ns() // 1_000_000

  @contextlib.contextmanager
  def node(self, name: str):
    tok = current_node.set(name)
    try: yield
    finally: current_node.reset(tok)

  # -- running
  @contextlib.contextmanager
  def _patched(self):
    global _active
    def urandom(n): return self.entropy.randbytes(n)
    saved = (time.time, time.time_ns, time.monotonic, time.monotonic_ns, time.perf_counter, os.urandom, random._urandom)
    time.time, time.time_ns = self.wall, self.wall_ns
    time.monotonic = lambda: self.loop._now
    time.monotonic_ns = lambda: int(self.loop._now * 1e9)
    time.perf_counter = lambda: self.loop._now
    os.urandom = urandom
    random._urandom = urandom
    st = random.getstate()
    random.seed(f"{self.seed}-global")
    prev, _active = _active, self
    gc_was = gc.isenabled()
    gc.disable()
    try: yield
    finally:
      _active = prev
      random.setstate(st)
      (time.time, time.time_ns, time.monotonic, time.monotonic_ns, time.perf_counter, os.urandom, random._urandom) = saved
      if gc_was: gc.enable()

  def run(self, coro_fn):
    """Run coro_fn() to completion under the simulator. Exceptions propagate."""
    with self._patched():
      old_policy_loop = None
      asyncio.set_event_loop(self.loop)
      try:
        main = self.loop.create_task(coro_fn())
        try:
          self.loop.run_until_complete(main)
        except RuntimeError as e:
          if self.deadlocked:
            raise Violation("deadlock", "every task is blocked and no timer is pending") from e
          raise
        except SimStopped as e:
          raise Violation("livelock", f"no completion within {self.max_steps} scheduler steps") from e
        return main.result()
      finally:
        self._teardown()
        asyncio.set_event_loop(None)

  def _teardown(self):
    loop = self.loop
    for t in self.threads: t.kill()
    self.net.shutdown()
    self.max_steps = self.steps + 200_000
    self.shuffle = 0.0
    self.stall_prob = 0.0
    loop._stopping = False
    for _ in range(20):
      tasks = sorted((t for t in asyncio.all_tasks(loop) if not t.done()), key=lambda t: getattr(t, "_sim_seq", 0))
      if not tasks: break
      for t in tasks: t.cancel()
      try:
        loop.run_until_complete(self._drain())
      except BaseException: pass
    loop._ready.clear()
    loop._scheduled.clear()
    try: loop.close()
    except BaseException: pass

  async def _drain(self):
    for _ in range(50): await asyncio.sleep(0)
    await asyncio.sleep(0.001)


def active() -> "Sim": return _active


@contextlib.contextmanager
def wall_alarm(seconds: float):
  """A synchronous endless loop in the code under test cannot be preempted by
  the event loop; a real-time alarm turns it into a reported hang."""
  def on_alarm(*_): raise WallAlarm()
  if threading.current_thread() is not threading.main_thread():
    yield
    return
  old = signal.signal(signal.SIGALRM, on_alarm)
  signal.setitimer(signal.ITIMER_REAL, seconds)
  try: yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)
