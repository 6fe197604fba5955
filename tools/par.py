"""par.py MODULE N: exploration over 8 processes, violation counts and one shrunk example of each kind."""
import collections, importlib, json, os, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst.core import setup_repo, shrink, HarnessError
setup_repo()
from dst.sim import sub_rng
name, N = sys.argv[1], int(sys.argv[2])
tag = sys.argv[3] if len(sys.argv) > 3 else "x"
mod = importlib.import_module("dst.checks." + name)

def job(w):
  out = []; pr = collections.Counter(); fl = collections.Counter(); nt = steps = 0; slow = (0, 0)
  for i in range(w, N, 8):
    case = mod.gen(sub_rng(tag, i), "quick")
    t = time.monotonic()
    try: r = mod.run(case)
    except HarnessError as e: return [(i, "HARNESS", str(e))], pr, fl, nt, steps, slow
    dt = time.monotonic() - t
    slow = max(slow, (dt, i))
    pr.update(r["probes"]); fl.update(r["faults"]); nt += bool(r["info"] and r["info"].get("nontrivial")); steps += r["steps"]
    if r["violation"]: out.append((i, *r["violation"]))
  return out, pr, fl, nt, steps, slow

if __name__ == "__main__":
  t = time.time()
  viols = []; pr = collections.Counter(); fl = collections.Counter(); nt = steps = 0; slow = (0, 0)
  with ProcessPoolExecutor(8) as ex:
    for o, p, f, n, s, sl in ex.map(job, range(8)): viols += o; pr += p; fl += f; nt += n; steps += s; slow = max(slow, sl)
  dt = time.time() - t
  print(f"{dt:.1f}s {dt/N*1000*8:.1f} ms/run steps={steps} nontrivial={nt}/{N} slowest={slow[0]:.2f}s@{slow[1]}\nprobes={dict(pr)}\nfaults={dict(fl)}")
  kinds = collections.Counter(v[1] for v in viols)
  print(kinds)
  seen = {}
  for v in sorted(viols): seen.setdefault(v[1], v)
  for k, v in seen.items():
    print("==", k, v[0], str(v[2])[-1500:])
    if k == "HARNESS": continue
    b, tr = shrink(mod.gen(sub_rng(tag, v[0]), "quick"), mod.run, k, budget=150, extra=getattr(mod, "simplify", None))
    print("SHRUNK", json.dumps(b)[:1800], mod.run(b)["violation"])
