"""The web backend on a simulated network, and a browser's side of its HTTP and websocket interface."""
from __future__ import annotations

import asyncio
import contextlib
import json
import os
import shutil

from dst.sim import Violation


@contextlib.contextmanager
def scratch_dir(env="DATA_DIR"):
  """A directory of this process only, gone afterwards; the code under test finds it through `env`."""
  base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
  path = os.path.join(base, f"dst-scratch-{os.getpid()}")
  shutil.rmtree(path, ignore_errors=True)
  os.mkdir(path)
  before = os.environ.get(env)
  os.environ[env] = path
  try: yield path
  finally:
    if before is None: os.environ.pop(env, None)
    else: os.environ[env] = before
    shutil.rmtree(path, ignore_errors=True)


def scope(kind, path, method=None, headers=()):
  s = { "type": kind, "asgi": { "version": "3.0" }, "http_version": "1.1", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "",
        "headers": [ (b"host", b"sim"), *headers ], "client": ("127.0.0.1", 50000), "server": ("127.0.0.1", 80), "scheme": "http" if kind == "http" else "ws" }
  if method: s["method"] = method
  if kind == "websocket": s["subprotocols"] = []
  return s


async def http(app, method, path, body=None, limit=30.0, chunks=1, what=None, raw=False):
  """One request. Returns (status, body bytes or parsed JSON)."""
  data = b"" if body is None else body if isinstance(body, bytes) else json.dumps(body).encode()
  k = max(1, min(chunks, len(data) or 1))
  parts = [ data[i * len(data) // k:(i + 1) * len(data) // k] for i in range(k) ]
  pending = [ { "type": "http.request", "body": p, "more_body": i + 1 < k } for i, p in enumerate(parts) ]
  sent, done = [], asyncio.Event()
  async def receive():
    if pending: return pending.pop(0)
    await done.wait()
    return { "type": "http.disconnect" }
  async def send(event):
    sent.append(event)
    if event["type"] == "http.response.body" and not event.get("more_body", False): done.set()
  what = what or f"{method} {path}"
  t = asyncio.create_task(app(scope("http", path, method, [ (b"content-type", b"application/json") ]), receive, send))
  try: await asyncio.wait([ t ], timeout=limit)
  finally:
    if late := not t.done(): t.cancel()
  if late:
    raise Violation("no-answer", f"{what} was not answered within {limit} s ({[ e['type'] for e in sent ]})")
  if t.cancelled(): raise Violation("no-answer", f"{what} was cancelled from inside")
  if t.exception() is not None: raise t.exception()
  starts = [ e for e in sent if e["type"] == "http.response.start" ]
  if len(starts) != 1 or sent[0] is not starts[0]: raise Violation("bad-response", f"{what}: {[ e['type'] for e in sent ]}")
  out = b"".join(e.get("body", b"") for e in sent[1:])
  if raw: return starts[0]["status"], out, sent
  if starts[0]["status"] != 200: return starts[0]["status"], None
  try: return 200, parse_json(out)
  except ValueError: return 200, out


def parse_json(text):
  """as a browser does: no NaN or Infinity"""
  def bad(x): raise Violation("bad-json", f"{x} in {text[:200]!r} is not JSON")
  return json.loads(text, parse_constant=bad)


class Ws:
  """A websocket of a browser."""
  def __init__(self, app, path):
    self.sent, self.inbox, self.closed, self.accepted = [], asyncio.Queue(), False, False
    self.app, self.path = app, path
    self.inbox.put_nowait({ "type": "websocket.connect" })
    async def receive(): return await self.inbox.get()
    async def send(event):
      if event["type"] == "websocket.accept": self.accepted = True
      elif event["type"] == "websocket.close": self.closed = True
      else: self.sent.append(event["text"] if event.get("text") is not None else event.get("bytes"))
    self.task = asyncio.create_task(app(scope("websocket", path), receive, send))
  @property
  def messages(self): return [ parse_json(x) for x in self.sent if isinstance(x, str) and x[:1] in "{[" ]
  def disconnect(self): self.inbox.put_nowait({ "type": "websocket.disconnect", "code": 1000 })
