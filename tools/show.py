"""development: show.py DIR ID [TURN] - print a case as an outline, and its recording"""
import sys, json
d, i = sys.argv[1], int(sys.argv[2])
c = [json.loads(l) for l in open(d + "/c.ndjson") if json.loads(l)["id"] == i][0]
o = ([json.loads(l) for l in open(d + "/o.ndjson") if json.loads(l)["id"] == i] or [{"turns": []}])[0]
def v(x):
    t = x.get("t")
    if t == "n": return str(x["n"] / 2 ** x["k"] if x["k"] else x["n"])
    if t == "s": return json.dumps(x["s"], ensure_ascii=False)
    if t == "b": return str(x["b"])
    if t == "lst": return ("#%s" % x["id"] if "id" in x else "") + "[" + ", ".join(v(y) for y in x["e"]) + "]"
    return json.dumps(x)
N = c["nodes"]
def ex(n):
    d = N[n - 1]
    if d["o"] == "lit": return v(d["v"])
    if d["o"] == "var": return "$" + d["s"][0]
    if d["o"] == "block": return "{" + "; ".join(ex(x) for x in d["a"]) + "}"
    return "%s%s%s(%s)" % (("%d:" % n), d["o"], ("<" + ",".join(d["s"]) + ("|%s" % d["v"]["n"] if d["o"] == "closure" else "") + ">") if d["s"] else "", ", ".join(ex(x) for x in d["a"]))
def blk(n, ind):
    for x in N[n - 1]["a"]:
        d = N[x - 1]
        bs = [y for y in d["a"] if N[y - 1]["o"] == "block"]
        if bs:
            print(ind + "%d:%s<%s>(%s)" % (x, d["o"], ",".join(d["s"]), ", ".join(ex(y) for y in d["a"] if y not in bs)))
            for b in bs: blk(b, ind + "    "); print(ind + "  --")
        else: print(ind + ex(x))
R = c["role"]
print("globals", {k: v(x) for k, x in R["globals"]})
for f in R["funcs"]: print("fn", f["name"], f["params"], f["upvars"]); blk(f["body"], "    ")
for e in R["entities"]:
    print("ENT", e["name"], {k: v(x) for k, x in e["fields"]}, "costumes", [x[0] for x in e["costumes"]], "sounds", [x[0] for x in e["sounds"]])
    for f in e["funcs"]: print("  fn", f["name"], f["params"], f["upvars"]); blk(f["body"], "    ")
    for s in e["scripts"]: print("  when", s["hat"]); blk(s["body"], "    ")
E = dict(c["env"]); T = E.pop("turns"); print("env", json.dumps(E))
want = int(sys.argv[3]) if len(sys.argv) > 3 else None
for k, t in enumerate(o["turns"]):
    if want and abs(k + 1 - want) > 1: continue
    x = dict(t); x.pop("snap", None); x.pop("ev")
    print("turn", k + 1, "t=%d" % T[k]["t"], json.dumps(T[k]["in"]) if T[k]["in"] else "", json.dumps(T[k]["msg"]) if T[k]["msg"] else "", "->", json.dumps(x)[:300])
    for e in t["ev"]: print("     ", json.dumps(e, ensure_ascii=False)[:300])
