import sys, importlib, collections, time, json
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from dst.core import setup_repo, shrink
setup_repo()
from dst.sim import sub_rng
mod=importlib.import_module('dst.checks.'+sys.argv[1])
N=int(sys.argv[2]); kinds=collections.Counter(); ex={}
t=time.time()
pr=collections.Counter(); fl=collections.Counter(); nt=0; steps=0
for i in range(N):
  case=mod.gen(sub_rng("x",i))
  r=mod.run(case)
  pr.update(r["probes"]); fl.update(r["faults"]); nt+=bool(r["info"] and r["info"].get("nontrivial")); steps+=r["steps"]
  if r["violation"]:
    kinds[r["violation"][0]]+=1
    ex.setdefault(r["violation"][0],(i,case,r["violation"]))
dt=time.time()-t
print("time",dt,"per",dt/N,"steps",steps,"nontrivial",nt, dict(pr), dict(fl))
print(kinds)
for k,(i,c,v) in ex.items():
  print(k,i,v[1][:1500])
  if len(sys.argv)>3:
    b,tr=shrink(c,mod.run,k)
    print("SHRUNK",json.dumps({k2:v2 for k2,v2 in b.items()}), mod.run(b)["violation"])
