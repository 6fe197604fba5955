"""Disk layer of the simulator: everything a process writes below one directory goes through here.

The files are real ones in a scratch directory, so what is in them at any moment is what survives the death of the process;
what Python had not handed to the operating system yet is lost with it. On top of that the layer tracks what would survive a loss
of power: the content of a file as of its last fsync, and a prefix of the directory changes since the last fsync of a directory.
Faults are armed from outside: a full disk, failing calls, short writes, and the death of the process before, in the middle of or
after any single disk operation."""
from __future__ import annotations

import asyncio
import builtins
import contextlib
import errno
import io
import os
import shutil


class SimCrash(asyncio.CancelledError):
  """The process died here. What it runs afterwards has no effect: its connections are gone and so is its disk."""


class SimFS:
  def __init__(self, sim, root):
    self.sim, self.root = sim, os.path.realpath(root)
    self.armed = []          # [countdown, kind, fraction]
    self.full = False        # the disk has no space left
    self.dead, self.on_crash, self.ops = False, None, 0
    self.fds = {}            # fd -> inode, of files opened with os.open
    self.held = {}           # inode -> [own fd, durable content]
    self.names, self.journal = {}, []

  # -- faults
  def arm(self, countdown, kind, fraction=0.5): self.armed.append([countdown, kind, fraction])
  def crash(self):
    self.dead = True
    cb, self.on_crash = self.on_crash, None
    if cb is not None: cb()
    raise SimCrash("process died")
  def op(self, what, path, size=0, grows=False):
    """Called for every operation; returns how many bytes of a write are to be done before what happens then: (n, None | errno | "crash")."""
    if self.dead: raise SimCrash("process died")
    self.ops += 1
    self.sim.probe("disk_op_" + what)
    self.sim.note(f"disk {what} {os.path.basename(path)} {size}")
    due = None
    for a in list(self.armed):
      a[0] -= 1
      if a[0] <= 0 and due is None and (a[1] != "short" or what == "write" and size > 1):
        self.armed.remove(a)
        due = a
    if due is not None:
      kind, part = due[1], int(size * due[2])
      if kind == "crash-before":
        self.sim.fault("crash_before_disk_op")
        self.crash()
      if kind == "crash-after":
        self.sim.fault("crash_after_disk_op")
        return size, "crash"
      if kind == "crash-torn":
        self.sim.fault("crash_in_disk_op")
        return part, "crash"
      if kind == "eio":
        self.sim.fault("disk_error")
        return (part if what == "write" else 0), errno.EIO
      if kind == "short":
        self.sim.fault("short_write")
        return max(1, part), None
    if self.full and grows:
      self.sim.fault("disk_full")
      return 0, errno.ENOSPC
    return size, None
  def simple(self, what, path, do, grows=False):
    """An operation that happens as a whole or not at all."""
    _, then = self.op(what, path, grows=grows)
    if isinstance(then, int): raise OSError(then, os.strerror(then), path)
    out = do()
    if then == "crash": self.crash()
    return out

  # -- what survives a loss of power
  def inside(self, path):
    if isinstance(path, int): return False
    try: path = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(path)))
    except TypeError: return False
    return path.startswith(self.root + os.sep) or path == self.root
  def full_path(self, path): return os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(path)))), os.path.basename(os.fsdecode(path)))
  def hold(self, path, durable=None):
    fd = _os_open(path, os.O_RDONLY)
    ino = os.fstat(fd).st_ino
    if ino in self.held: _os_close(fd)
    else: self.held[ino] = [fd, self.read(fd) if durable is None else durable]
    return ino
  def read(self, fd):
    out, pos = b"", 0
    while True:
      b = os.pread(fd, 1 << 20, pos)
      if not b: return out
      out, pos = out + b, pos + len(b)
  def begin(self):
    """Everything that is there now is durable."""
    for fd, _ in self.held.values(): _os_close(fd)
    self.held, self.names, self.journal = {}, {}, []
    self.armed, self.full, self.dead, self.on_crash = [], False, False, None
    for d, _, files in os.walk(self.root):
      for f in files:
        p = os.path.join(d, f)
        self.names[p] = self.hold(p)
  def created(self, path, existed):
    path = self.full_path(path)
    ino = self.hold(path, None if existed else b"")
    if not existed: self.journal.append(("link", path, ino))
    return ino
  def synced(self, fd):
    st = os.fstat(fd)
    if os.path.isdir(f"/proc/self/fd/{fd}"):
      self.apply(len(self.journal))
    elif st.st_ino in self.held: self.held[st.st_ino][1] = self.read(self.held[st.st_ino][0])
  def apply(self, n):
    for kind, path, x in self.journal[:n]:
      if kind == "link": self.names[path] = x
      elif kind == "unlink": self.names.pop(path, None)
      elif path in self.names: self.names[x] = self.names.pop(path)
    self.journal = self.journal[n:]
  def power_loss(self, rng):
    """Call when the process is dead. Leaves on disk what a loss of power may leave."""
    self.sim.fault("power_loss")
    self.apply(rng.randint(0, len(self.journal)))
    now = { ino: (self.read(fd), durable) for ino, (fd, durable) in self.held.items() }
    for d, _, files in os.walk(self.root):
      for f in files: _os_unlink(os.path.join(d, f))
    for path, ino in sorted(self.names.items()):
      content, durable = now[ino]
      if content != durable:
        r = rng.random()
        if r < 0.3: content = durable
        elif r < 0.5: content = b""
        elif r < 0.7: content = content[:rng.randint(0, len(content))]
        elif r < 0.8:
          k = rng.randint(0, len(content))
          content = content[:k] + b"\0" * (len(content) - k)
      with _io_open(path, "wb") as fd: fd.write(content)
  def end(self):
    for fd, _ in self.held.values(): _os_close(fd)
    self.held = {}


_io_open, _os_open, _os_close, _os_unlink = io.open, os.open, os.close, os.unlink


def _raw_class(fs):
  class SimRaw(io.FileIO):
    def _where(self): return self.name if isinstance(self.name, str) else "fd"
    def write(self, b):
      b = memoryview(b).cast("B")
      n, then = fs.op("write", self._where(), len(b), grows=len(b) > 0)
      done = 0
      while done < n: done += super().write(b[done:n])
      if then == "crash": fs.crash()
      if then is not None and n == 0: raise OSError(then, os.strerror(then))
      if then is not None: fs.arm(1, "eio", 0.0) # the part that went through is reported first
      return n
    def truncate(self, size=None): return fs.simple("truncate", self._where(), lambda: super(SimRaw, self).truncate(size))
  return SimRaw


@contextlib.contextmanager
def disk(sim, root):
  fs = SimFS(sim, root)
  Raw = _raw_class(fs)
  saved = { (m, n): getattr(m, n) for m, n in [(builtins, "open"), (io, "open"), (os, "open"), (os, "write"), (os, "close"), (os, "replace"), (os, "rename"), (os, "unlink"), (os, "remove"), (os, "fsync"), (os, "fdatasync"),
                                              (os, "truncate"), (os, "ftruncate"), (os, "mkdir"), (shutil, "_USE_CP_SENDFILE")] if hasattr(m, n) }
  real = { n: f for (_, n), f in saved.items() }

  def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    writes = any(c in mode for c in "wax+")
    ours = isinstance(file, int) and file in fs.fds or not isinstance(file, int) and fs.inside(file)
    if not writes or not ours: return _io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = "".join(c for c in mode if c in "rwax+")
    def make(): return Raw(file, rawmode, closefd, opener)
    if isinstance(file, int) or opener is not None: raw = make() # opened by os.open
    else:
      path = fs.full_path(file)
      existed = os.path.exists(path)
      if existed: fs.hold(path)
      raw = fs.simple("open", path, make, grows=not existed)
      fs.created(path, existed)
    binary = "b" in mode
    if buffering == 0:
      if not binary:
        raw.close()
        raise ValueError("can't have unbuffered text I/O")
      return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if binary: return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text

  def os_open(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is not None or not fs.inside(path): return _os_open(path, flags, mode, dir_fd=dir_fd)
    if not flags & (os.O_WRONLY | os.O_RDWR):
      if fs.dead: raise SimCrash("process died")
      fd = _os_open(path, flags, mode)
      fs.fds[fd] = os.fstat(fd).st_ino
      return fd
    p = fs.full_path(path)
    existed = os.path.exists(p)
    if existed and not flags & os.O_EXCL: fs.hold(p)
    fd = fs.simple("open", p, lambda: _os_open(path, flags, mode), grows=not existed)
    fs.fds[fd] = fs.created(p, existed)
    return fd
  def os_close(fd):
    fs.fds.pop(fd, None)
    return real["close"](fd)
  def os_write(fd, data):
    if fd not in fs.fds: return real["write"](fd, data)
    data = memoryview(data).cast("B")
    n, then = fs.op("write", str(fd), len(data), grows=len(data) > 0)
    done = 0
    while done < n: done += real["write"](fd, data[done:n])
    if then == "crash": fs.crash()
    if then is not None and n == 0: raise OSError(then, os.strerror(then))
    return n
  def ours_fd(fd):
    fd = fd if isinstance(fd, int) else fd.fileno()
    try: st = os.fstat(fd)
    except OSError: return False
    return st.st_ino in fs.held or fd in fs.fds
  def os_fsync(fd):
    if not ours_fd(fd): return real["fsync"](fd)
    n = fd if isinstance(fd, int) else fd.fileno()
    return fs.simple("fsync", str(n), lambda: fs.synced(n))
  def os_replace(src, dst, *a, **k):
    if a or k or not (fs.inside(src) or fs.inside(dst)): return real["replace"](src, dst, *a, **k)
    s, d = fs.full_path(src), fs.full_path(dst)
    def do():
      real["replace"](src, dst)
      fs.journal.append(("rename", s, d))
    return fs.simple("rename", d, do)
  def os_unlink(path, *a, **k):
    if a or k or not fs.inside(path): return real["unlink"](path, *a, **k)
    p = fs.full_path(path)
    def do():
      real["unlink"](path)
      fs.journal.append(("unlink", p, None))
    return fs.simple("unlink", p, do)
  def os_truncate(path, length):
    if isinstance(path, int): return os_ftruncate(path, length)
    if not fs.inside(path): return real["truncate"](path, length)
    fs.hold(fs.full_path(path))
    return fs.simple("truncate", fs.full_path(path), lambda: real["truncate"](path, length))
  def os_ftruncate(fd, length):
    if not ours_fd(fd): return real["ftruncate"](fd, length)
    return fs.simple("truncate", str(fd), lambda: real["ftruncate"](fd, length))
  def os_mkdir(path, mode=0o777, **k):
    if k or not fs.inside(path): return real["mkdir"](path, mode, **k)
    return fs.simple("mkdir", fs.full_path(path), lambda: real["mkdir"](path, mode))

  builtins.open = io.open = sim_open
  os.open, os.close, os.write, os.fsync, os.fdatasync = os_open, os_close, os_write, os_fsync, os_fsync
  os.replace = os.rename = os_replace
  os.unlink = os.remove = os_unlink
  os.truncate, os.ftruncate, os.mkdir = os_truncate, os_ftruncate, os_mkdir
  shutil._USE_CP_SENDFILE = False
  try:
    fs.begin()
    yield fs
  finally:
    for (m, n), f in saved.items(): setattr(m, n, f)
    fs.end()
