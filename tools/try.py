"""development: try.py FAMILY N [SEED]  - generate, run, validate, summarise. Keeps files in /tmp/try"""
import sys, os, json, random, shutil, time, collections
import drv, fam
name, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
tmp = "/tmp/try_" + name
shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
drv.build()
f = getattr(fam, name)
t0 = time.time()
cases = []
for i in range(n):
    c = f(random.Random("%s/%d/%d" % (name, seed, i)))
    c["id"] = i + 1
    cases.append(c)
t1 = time.time()
res, crashed = drv.execute(cases, tmp)
t2 = time.time()
v, st, errs = drv.validate(cases, res, tmp)
t3 = time.time()
cnt = collections.Counter(x[0] for x in v.values())
print(name, dict(cnt), "crashed", crashed, "gen %.1f run %.1f tlc %.1f" % (t1 - t0, t2 - t1, t3 - t2), st)
tt = collections.Counter(x[2] for x in v.values() if x[0] == "taint")
if tt: print("taints", tt.most_common(8))
ends = collections.Counter(t["kind"] for o in res.values() if o for t in o[0]["turns"])
evs = collections.Counter(e["e"] + ":" + e["k"] for o in res.values() if o for t in o[0]["turns"] for e in t["ev"])
print("ends", dict(ends), "events", dict(evs))
cc = collections.Counter(o[0]["compile"] for o in res.values() if o); print("compile", dict(cc))
errcs = collections.Counter(t["cause"].split(" ")[0] for o in res.values() if o for t in o[0]["turns"] if t["kind"] == "Err"); print("errs", errcs.most_common(12))
import re
for e in errs[:2]: print("ERR", e[:60], *re.findall(r"(?m)^(?:Error: .*|.*attempted.*|.*Attempted.*|\d+\. Line.*)$", e)[-8:], sep="\n   ")
k = 0
for i in sorted(v):
    if v[i][0] == "bad":
        print("BAD case %d turn %d: %s" % (i, v[i][1], v[i][2][:700])); k += 1
        if k >= 8: break
