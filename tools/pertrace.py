#!/usr/bin/env python3
"""pertrace.py PROP PROFILE N: states TLC needs for each trace (development aid)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib, props, concurrent.futures as cf, time
ctx = vlib.Ctx("X", "quick", int(os.environ.get("VERIF_SEED","1")))
spec, cfg, prof, n = sys.argv[1], sys.argv[1]+".cfg", sys.argv[2], int(sys.argv[3])
exe = getattr(props, sys.argv[4] if len(sys.argv)>4 else "playlist_exe")(ctx)
tr = vlib.run_harness(ctx, exe, prof, n)
for v in ctx.violations: print("VIOL", v[0])
def one(t):
    p = ctx.work+"/t%d"%t["n"]
    open(p,"w").write(json.dumps(t)+"\n")
    t0=time.time()
    rc,out,gen,dist = vlib.tlc(ctx, spec+".tla", cfg, env={"TRACES":p}, dfs=True)
    return dist, t["n"], rc, round(time.time()-t0,1), out
with cf.ThreadPoolExecutor(6) as ex: r = list(ex.map(one, tr))
r.sort(key=lambda x:-x[0])
for x in r[:8]: print(x[:4])
print("total", sum(x[0] for x in r), "bad", [x[1] for x in r if x[2]])
os.makedirs("/tmp/pt",exist_ok=True)
for x in r[:2]:
    json.dump([t for t in tr if t["n"]==x[1]][0], open("/tmp/pt/%d.json"%x[1],"w"))
ctx.close()
