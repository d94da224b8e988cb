"""The extension for the NetsBlox editor: sessions of its user and an execution server (spec/Client.tla), run in node (client.js)."""
import json, os, subprocess, threading
import comp, drv
HERE = os.path.dirname(os.path.abspath(__file__))
TAGS = ["role", "sprite", "thumbnail", "pentrails", "history", "replay", "script", "block", "media", "l"]
WORDS = ["open", "close", "readLine", "a b", "it's", "say \"hi\"", "back\\slash", "new\nline", "tab\tx", "é", "日本", "💡", "e\u0301", "</script>", "${x}", "{0}", "{{y}}", "`q`", "// z", "x:y,", "\u2028", "%s", "A"]
def word(r, used=()):
    while True:
        w = r.choice(WORDS) if r.random() < .7 else r.choice(WORDS) + r.choice(WORDS)
        if w not in used: return w
def menu(r, d=0):
    out, used = [], set()
    for _ in range(r.choice([0, 1, 2, 3, 4] if d else [0, 1, 2, 4, 7])):
        l = word(r, used); used.add(l)
        k = r.choice(["p", "e", "e"] + ["s"] * (2 if d < 3 else 0))
        out.append(dict(k=k, l=l, v=word(r) if k == "e" else "", sub=menu(r, d + 1) if k == "s" else []))
    return out
def doc(r, d=0, omit=()):
    kids = []
    for _ in range(r.randint(0, 4 if d < 4 else 0)):
        if r.random() < .25: kids.append(dict(n="", s=r.choice(["x", "hello", "1 2", "é"]), c=[]))
        else:
            t = doc(r, d + 1, omit)
            kids.append(t)
            while r.random() < .3: kids.append(doc(r, d + 2, omit) if r.random() < .3 else dict(n=t["n"], s="", c=[]))
    return dict(n="project" if d == 0 else r.choice(TAGS), s="", c=kids)
def xml(t): return t["s"] if t["n"] == "" else "<%s>%s</%s>" % (t["n"], "".join(map(xml, t["c"])), t["n"])
def case(r):
    ids, pool = [], ["item_%d" % i for i in range(1, r.randint(3, 9))]
    def tree(d=0):
        ids.append(r.choice(pool) if r.random() < .8 else "")
        t = dict(u=len(ids), id=ids[-1], c=[])
        t["c"] = [tree(d + 1) for _ in range(r.randint(0, 3) if d < 3 and len(ids) < 14 else 0)]
        return t
    world, glob = tree(), [tree(2) for _ in range(r.randint(0, 2))]
    stage, sprites = [tree(2) for _ in range(r.randint(0, 1))], [[tree(2) for _ in range(r.randint(0, 2))] for _ in range(r.randint(0, 2))]
    omit = r.choice([[], ["thumbnail"], ["thumbnail", "pentrails", "history", "replay"], r.sample(TAGS, r.randint(0, 4))])
    t = doc(r)
    vs = lambda: [dict(name=word(r), value=word(r)) for _ in range(r.choice([0, 0, 1, 2]))]
    def error():
        tr, seen = [], {}
        for _ in range(r.randint(1, 5)):
            l = r.choice(pool) if r.random() < .75 else r.choice(["", "gone_1", "gone_2"])
            if r.random() < .2 and tr: l = tr[-1]["location"] # a recursive call
            if l not in seen: seen[l] = vs()
            tr.append(dict(location=l, locals=seen[l]))
        return dict(cause=word(r), entity="s", globals=vs(), fields=vs(), trace=tr)
    op = lambda o, **k: dict(dict(o=o, n=0, b="", k="", st=0, text="", running=False, output="", errors=[]), **k)
    ops, made, long = [op("load")], False, r.random() < .01
    def answer(k): return op("answer", k=k, st=r.choice([200] * 8 + [0, 400, 500]), text=word(r), running=r.random() < .6, output="".join(r.choice("abcdefgh\n") for _ in range(7)) * r.randint(30000, 80000) if long else "" if r.random() < .4 else word(r) + r.choice(["", "\n"]), errors=[error() for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3]))])
    for _ in range(r.randint(5, 30)):
        k = r.random()
        if not made and k < .5: ops.append(op("open")); made = True
        elif k < .35: ops.append(op("wait", n=r.choice([1, 1, 1, 2, 5])))
        elif k < .7 and made: ops.append(answer("pull") if r.random() < .85 else answer(r.choice(["get", "post"])))
        elif k < .95 and made: ops.append(op("press", b=r.choice(["Upload", "Upload", "Download", "flag", "$", "octagon", "Clear", "Close"])))
        elif made and r.random() < .4: ops.append(op("dismiss", n=r.randint(1, len(ids))))
        elif made and r.random() < .7: ops.append(op("open"))
        else: ops.append(answer(r.choice(["get", "get", "post"])))
        if ops[-1]["o"] == "wait" and made and r.random() < .8: ops.append(answer("pull"))
    if long: ops += [x for _ in range(4) for x in (op("open"), op("wait", n=1), dict(answer("pull"), st=200))] if made else []
    return dict(kind="client", server="http://%s:%d" % (r.choice(["localhost", "127.0.0.1", "native.example.org"]), r.randint(1, 65535)), menu=menu(r), omit=omit, ms=r.choice([50, 100, 250, 1000]),
                tree=t, xml=xml(t), ids=ids, world=world, globals=glob, stage=stage, sprites=sprites, ops=ops, obs="none")
def op(o, **k): return dict(dict(o=o, n=0, b="", k="", st=0, text="", running=False, output="", errors=[]), **k)
def scenario(arg):
    """a small editor, and what can happen in it"""
    t = lambda u, i, *c: dict(u=u, id=i, c=list(c))
    n = lambda name, *c: dict(n=name, s="", c=list(c))
    x = dict(n="", s="x", c=[])
    doc = n("project", n("l", n("l"), x, n("l")), n("thumbnail", x), n("thumbnail"), n("thumbnail", n("l")), n("block", n("thumbnail")), n("history"))
    v = lambda *w: [dict(name=a, value=b) for a, b in w]
    e = lambda cause, *locs: dict(cause=cause, entity="s", globals=v(("g", "1")), fields=v(("f", "2")) if cause == "E2" else [], trace=[dict(location=l, locals=v(("a", l))) for l in locs])
    e1, e2, e3 = e("E1", "item_1", "item_2", "item_1"), e("E2", "gone", "", "item_2"), e("E3", "item_3")
    pull = lambda **k: op("answer", k="pull", st=200, **k)
    alpha = ([op("open"), op("wait", n=1), pull(errors=[e1]), pull(errors=[e2]), pull(errors=[e3, e1], running=True), pull(errors=[e2, e3, e2]), op("dismiss", n=2), op("dismiss", n=5)] if arg == 0
             else [op("open"), op("wait", n=1), op("wait", n=5), pull(output="out\n", running=True), pull(output=""), op("answer", k="pull", st=500, output="no")]
                + [op("answer", k=k, st=st, text="t") for k in ("get", "post") for st in (200, 0)] + [op("press", b=b) for b in ("Upload", "Download", "flag", "$", "octagon", "Clear", "Close")])
    return dict(server="http://localhost:8080", menu=[dict(k="p", l="a", v="", sub=[]), dict(k="s", l="b", v="", sub=[dict(k="e", l="c", v="d", sub=[])])], omit=["thumbnail", "history"], ms=100, tree=doc, xml=xml(doc),
                ids=["item_1", "item_2", "item_2", "item_3", "item_1", ""], world=t(1, "item_1", t(2, "item_2"), t(6, "")), globals=[t(3, "item_2")], stage=[t(4, "item_3")], sprites=[[], [t(5, "item_1")]], alpha=alpha, ops=[op("load")])
def play(tmp, cases):
    """renders the extension of each case with the real code and runs it in the editor's stand-in; returns outputs by id"""
    for i, c in enumerate(cases): c["id"] = i + 1
    same = {}
    for c in cases: same.setdefault(json.dumps([c["server"], c["menu"], c["omit"], c["ms"]]), []).append(c["id"])
    js = comp.replay(tmp, comp.evals([dict(zip(("o", "server", "menu", "omit", "ms"), ["render"] + json.loads(k))) for k in same], 1))
    texts = {}
    for i, k in enumerate(same):
        o = js.get(i + 1)
        x = o and (o[0]["out"] or [{}])[0] if o and "out" in o[0] else {}
        for j in same[k]: texts[j] = x["r"] if x.get("p") == "" and isinstance(x["r"], str) else None, o and o[0]
    res, parts, lock = {}, [cases[i::drv.NCPU] for i in range(drv.NCPU)], threading.Lock()
    def put(o):
        with lock: res[o["id"]] = (o, json.dumps(o, ensure_ascii=False))
    def work(i):
        good, known = [], {}
        for c in parts[i]:
            if texts[c["id"]][0] is None: put(dict(id=c["id"], p="rendering failed: %s" % json.dumps(texts[c["id"]][1])[:200], out=[]))
            else: good.append(dict(c, js=known.setdefault(texts[c["id"]][0], len(known))))
        fi, fo = "%s/cl%d.in" % (tmp, i), "%s/cl%d.out" % (tmp, i)
        with open(fi, "w", encoding="utf-8") as f:
            f.write(json.dumps(list(known)) + "\n")
            for c in good: f.write(json.dumps(c) + "\n")
        try: why = subprocess.run(["node", "--stack-size=2000", HERE + "/client.js", fi, fo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300).stdout.decode("utf-8", "replace")[-300:]
        except subprocess.TimeoutExpired: why = "no end"
        if os.path.exists(fo):
            for l in open(fo, encoding="utf-8"):
                if l.endswith("\n"): put(json.loads(l))
            os.remove(fo)
        for c in good:
            if c["id"] not in res: put(dict(id=c["id"], p="the editor did not get through: " + why, out=[])); break
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(parts))]
    for t in ts: t.start()
    for t in ts: t.join()
    return res
