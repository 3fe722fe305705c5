#!/opt/horus-venv/bin/python
"""developer tool: run many seeds of a check and list failures without minimising.  sweep.py ID N [seed]"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"]="0"; os.environ["PYTHONDONTWRITEBYTECODE"]="1"; os.execv(sys.executable,[sys.executable]+sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import driver, registry, multiprocessing, collections, time, json
c = registry.get(sys.argv[1]); n = int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else "1"
c.build(); driver._CHECK = c
t=time.time(); cl = collections.Counter(); tot=collections.Counter(); shown=collections.Counter(); st=set(); nd=0; slow=[]
with multiprocessing.get_context("fork").Pool(8) as pool:
    for i, plan, log, facts, v, h, same, err in pool.imap_unordered(driver._one, ((i, seed, os.environ.get("TIER","quick")) for i in range(n))):
        if err:
            cl["ERR"] += 1
            if shown["ERR"] < 3: shown["ERR"] += 1; print("run", i, err)
        if same is False: nd += 1
        slow.append((round(facts.get("_wall",0),2), i))
        for k, x in facts.items():
            if isinstance(x,(int,float)): tot[k]+=x
            elif k=="_states": st|=x
        for k, m in v:
            cl[k] += 1
            if shown[k] < int(os.environ.get("SHOW","3")): shown[k] += 1; print("run", i, k, m)
print(cl, "nondet", nd, "t", round(time.time()-t,1), "slowest", sorted(slow)[-3:], "\n", {k:(round(v,2)) for k,v in sorted(tot.items())}, len(st))
