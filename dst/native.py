"""The C++ extensions of the repository's working tree, built outside it and loaded in place of whatever .so lies there."""
from __future__ import annotations

import fcntl
import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

from dst.core import REPO


def build():
  files = sorted(glob.glob(os.path.join(REPO, "streamtasks/**/*_all.cpp"), recursive=True) + glob.glob(os.path.join(REPO, "streamtasks/**/*.h*"), recursive=True))
  h = hashlib.sha256()
  for f in files + [ os.path.join(REPO, "setup.py"), sys.executable ]:
    h.update(os.path.relpath(f, REPO).encode())
    if f != sys.executable:
      with open(f, "rb") as fd: h.update(fd.read())
  out = os.path.join(tempfile.gettempdir(), f"dst-native-{os.getuid()}-{h.hexdigest()[:20]}")
  with open(out + ".lock", "w") as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.isdir(out):
      tmp = tempfile.mkdtemp(prefix="dst-native-")
      try:
        r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--build-lib", tmp + "/lib", "--build-temp", tmp + "/tmp"], cwd=REPO, capture_output=True, text=True, timeout=600)
        if r.returncode: raise RuntimeError("the C++ extensions do not build: " + r.stderr[-2000:])
        os.rename(tmp + "/lib", out)
      finally: shutil.rmtree(tmp, ignore_errors=True)
  return out


def load(name="streamtasks.media.video_perf"):
  if name in sys.modules: return sys.modules[name]
  [ path ] = glob.glob(os.path.join(build(), *name.split(".")) + ".*so")
  spec = importlib.util.spec_from_file_location(name, path)
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  sys.modules[name] = mod
  return mod
