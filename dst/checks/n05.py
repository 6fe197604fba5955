"""N05: clients behind a remapped link use their own topic ids; see n06 for the workload."""
from dst.checks import n06
from dst.core import execute

ID = "N05"
RULE = ("seeded case = the pause/publish/subscribe workload of N06 in which most clients reach the network through a remapped link with a random mapping of topic ids "
        "(fresh ids, colliding ids, swapped ids); non-trivial when a consumer's state was compared at a settle point; distinct by execution fingerprint")
REAL = n06.REAL
STUB = n06.STUB


def gen(rng, tier="quick"):
  case = n06.gen(rng, tier)
  base, n = 300, case["cfg"]["topics"]
  for c in case["cfg"]["clients"]:
    if rng.random() < 0.25: continue
    ext = [ base + t for t in range(n) if rng.random() < 0.8 ]
    kind = rng.choice(["fresh", "small", "swap", "mixed"])
    if kind == "fresh": inner = rng.sample(range(1000, 1100), len(ext))
    elif kind == "small": inner = list(range(1, len(ext) + 1)) # the same ids in every client
    elif kind == "swap":
      inner = ext[:]
      rng.shuffle(inner)
    else: inner = [ i if rng.random() < 0.5 else 2000 + k for k, i in enumerate(ext) ]
    c["map"] = { str(i): e for i, e in zip(inner, ext) }
  return case


main = n06.main
def run(case, keep_log=False):
  cfg = case["cfg"]
  return execute(case, main, keep_log=keep_log, sim_opts={ "shuffle": cfg.get("shuffle", 0), "stall_prob": cfg.get("stall_prob", 0), "stall_max": 0.3 })
