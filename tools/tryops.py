"""development: tryops.py PID N [SEED]"""
import sys, os, shutil, time, collections, json
import drv, ops
pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
tmp = "/tmp/ops_" + pid; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
drv.build()
cs, total = ops.cases(pid, seed, n or None) if n >= 0 else (ops.random_cases(pid, seed, -n), -n)
for i, c in enumerate(cs): c["id"] = i + 1
t0 = time.time(); res, cr = drv.execute(cs, tmp); t1 = time.time()
v, st, errs = drv.validate(cs, res, tmp); t2 = time.time()
print(pid, len(cs), "cases of", total, "evaluations", collections.Counter(x[0] for x in v.values()), "crashed", cr, "run %.1f tlc %.1f" % (t1 - t0, t2 - t1))
print("skips", len(st["skips"]), collections.Counter((x[2], cs[x[0] - 1]["evals"][x[1] - 1]) for x in st["skips"]).most_common(14))
import re
for e in errs[:2]: print("ERR", e[:60], *re.findall(r"(?m)^(?:Error: .*|.*attempted.*|.*Attempted.*|\d+\. Line.*)$", e)[-8:], sep="\n   ")
b = [(cs[i - 1]["evals"][x[1] - 1], i, x) for i, x in sorted(v.items()) if x[0] != "ok"]
print(collections.Counter(x[0] for x in b).most_common(30))
seen = collections.Counter()
for o, i, x in b:
    seen[o] += 1
    if seen[o] <= 2:
        g = [y for y in cs[i - 1]["role"]["globals"] if y[0].startswith("v%d_" % (x[1] - 1))]
        print("%s case %d turn %d: %s\n      %s" % (o, i, x[1], x[2][:500], json.dumps(g, ensure_ascii=False)[:400]))
