"""Components: histories enumerated by TLC from the specification (CompGen) and replayed on the real types, and
generated histories recorded on the real types and validated by TLC (CompTrace)."""
import os, re, json, random, subprocess, time, tempfile, shutil, itertools, threading
import drv
from gen import num, txt, boo, NUMS, Proj, env, turn, start, case as mkcase

def unq(s): return drv.unq(s)
def case_of(kind, arg, **k):
    c = dict(kind=kind)
    if kind == "vec": c.update(sorted=arg % 2 == 1, text=arg >= 2)
    if kind == "one": c.update(shared=arg == 1)
    if kind == "idle": c.update(thresh=arg)
    if kind in ("clock", "net"): c.update(prec=arg)
    if kind == "client": import client; c.update(client.scenario(arg))
    c.update(k)
    return c
def enumerate_histories(tmp, kind, arg, depth, timeout=600):
    """TLC: every history up to a length -> (cases with expected r and x, stats)"""
    fo = "%s/gen_%s_%d.out" % (tmp, kind, arg)
    fc = "%s/gen_%s_%d.in" % (tmp, kind, arg)
    open(fc, "w").write(json.dumps(case_of(kind, arg)) + "\n")
    p, meta = drv.tlc("CompGen.tla", "CompGen.cfg", tmp, dict(KIND=kind, ARG=str(arg), DEPTH=str(depth), FILE_CASES=fc), workers=1 if kind == "client" else 4, mem=4000)
    with open(fo, "wb") as f:
        def pump():
            for chunk in iter(lambda: p.stdout.read(1 << 20), b""): f.write(chunk)
        t = threading.Thread(target=pump)
        t.start()
        try: p.wait(timeout)
        except subprocess.TimeoutExpired: p.kill()
        t.join()
    shutil.rmtree(meta, ignore_errors=True)
    cs, st, tail = [], dict(generated=0, distinct=0), []
    for l in open(fo, encoding="utf-8", errors="replace"):
        if l.startswith('"HIST\\t'): cs.append(json.loads(unq(l.strip()[1:-1])[5:]))
        else:
            tail.append(l)
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", l)
            if m: st = dict(generated=int(m.group(1)), distinct=int(m.group(2)))
    os.remove(fo)
    txt = "".join(tail)
    if "No error has been found" not in txt: raise drv.Broken("CompGen %s: %s" % (kind, txt[-2000:]))
    return cs, st
def empties(x): # TLC prints empty sequences and empty records alike
    return x
def replay(tmp, cases):
    """runs them on the real types; returns outputs by id"""
    for i, c in enumerate(cases): c["id"] = i + 1
    if cases and cases[0]["kind"] == "client": import client; return client.play(tmp, cases)
    if cases and cases[0]["kind"] == "dump": import dump; return dump.play(tmp, cases)
    net = bool(cases) and cases[0]["kind"] == "net"
    res, _ = drv.execute(cases, tmp, mode="net" if net else "comp", timeout=max(120, len(cases) * .002))
    return res
def exhaustive(acc, kind, arg, depth):
    hs, st = enumerate_histories(acc.tmp, kind, arg, depth)
    acc.states += st["distinct"]; acc.transitions += st["generated"]
    key = "%s_%d" % (kind, arg)
    for lo in range(0, len(hs), 200000):
        part = hs[lo:lo + 200000]
        cases = [case_of(kind, arg, ops=h["ops"], obs="last") for h in part]
        res = replay(acc.tmp, cases)
        for h, c in zip(part, cases):
            o = res.get(c["id"])
            if o is None: continue
            out = o[0]["out"]
            got = out[-1] if out else None
            if got is not None and got["p"] == "" and got["r"] == h["r"] and got["x"] == [h["x"]]: acc.valid += 1
            elif len(acc.violations) < 200:
                acc.violations.append(dict(kind="comp", where="every history of %s" % key, turn=0, case=dict(c, obs="all"),
                    why="after %s: expected %s, got %s" % (json.dumps([short(x) for x in h["ops"]], ensure_ascii=False), json.dumps([h["r"], h["x"]], ensure_ascii=False), json.dumps(got, ensure_ascii=False) if got else o[0].get("p")), recorded=got or o[0].get("p")))
    acc.extra["histories_%s_up_to_%d_operations" % (key, depth)] = len(hs)
    if hs and len(acc.samples) < 3: acc.samples.append(dict(history=[short(x) for x in hs[-1]["ops"]], expected_and_recorded=[hs[-1]["r"], hs[-1]["x"]]))
def short(op): return [v for k, v in op.items() if v not in ([],) and not (k in ("h", "v") and v == 0)]
def recorded(acc, cases, label):
    """runs cases on the real types, and has TLC check the records"""
    res = replay(acc.tmp, cases)
    judge(acc, cases, {k: (v and fixup(v)) for k, v in res.items()}, label)
def judge(acc, cases, res, label):
    ver, st, errs = drv.validate(cases, res, acc.tmp, timeout=max(60, min(700, 860 - (time.time() - acc.t0))), module="CompTrace")
    acc.states += st["distinct"]; acc.transitions += st["generated"]
    for e in errs: acc.notes.append(e)
    for c in cases:
        v = ver.get(c["id"])
        if res.get(c["id"]) is None: continue
        if v is None: acc.undecided += 1
        elif v[0] == "ok":
            acc.valid += 1
            if len(acc.samples) < 2: acc.samples.append(dict(kind=c["kind"], operations=[str(x)[:160] for x in c["ops"][:8]], recorded=json.dumps(res[c["id"]][0]["out"][:8])[:700]))
        else: acc.violations.append(dict(kind="comp", where="%s, operation %d" % (label, v[1]), turn=v[1], why=v[2], case=c, recorded=res[c["id"]][0]["out"][max(0, v[1] - 1):v[1]]))
    acc.extra[label] = acc.extra.get(label, 0) + sum(len(c["ops"]) for c in cases)
def fixup(v):
    o = v[0]
    if "out" in o: return v
    o = dict(o, p=o.get("msg", "the process died"), out=[]) # the process died
    return (o, json.dumps(o))

# ------------------------------------------------------------------ deeply nested values
DEEP = dict(
    listflatten=lambda p, v, w: p.n("listlen", p.n("listflatten", v)),
    listrank=lambda p, v, w: p.n("listrank", v),
    listdims=lambda p, v, w: p.n("listlen", p.n("listdims", v)),
    reshape=lambda p, v, w: p.n("listlen", p.n("reshape", v, p.n("list", p.lit(3)))),
    listjson=lambda p, v, w: p.n("strlen", p.n("listjson", v)),
    strcat=lambda p, v, w: p.n("strlen", p.n("strcat", p.n("list", v))),
    neg=lambda p, v, w: p.n("listlen", p.n("neg", v)),
    sub=lambda p, v, w: p.n("listlen", p.n("sub", v, w)),
    eq=lambda p, v, w: p.n("eq", v, w),
    listfind=lambda p, v, w: p.n("listfind", v, p.n("list", p.lit(5), w)),
    listget=lambda p, v, w: p.n("listlen", p.n("listget", v, p.n("list", p.lit(7), p.lit(8)))))
def deep_case(op, n):
    """a program which nests a list n deep, and evaluates the operation on it"""
    p = Proj()
    for g in ("v", "w", "r"): p.glob(g, 0)
    nest = lambda g: [p.set(g, p.n("list", p.lit(1))), p.n("warp", p.block(p.n("repeat", p.lit(n), p.block(p.set(g, p.n("list", p.var(g)))))))]
    p.script(p.ent("s1"), ("flag",), *nest("v"), *nest("w"), p.set("r", DEEP[op](p, p.var("v"), p.var("w"))), p.set("v", p.lit(0)), p.set("w", p.lit(0)), p.say(p.var("r")))
    return mkcase(p, env(snap0=False, cap=100 * n + 10000, stack=8, turns=[turn(0, [start()])] + [turn(0)] * 3))
def deep(acc, pairs):
    """operations on deeply nested lists, run with the stack a program's thread has"""
    cs, res, spec = [deep_case(*x) for x in pairs], {}, []
    for i, c in enumerate(cs): c["id"] = i + 1
    out, _ = drv.execute(cs, acc.tmp, timeout=120)
    for c, (op, n) in zip(cs, pairs):
        r = out.get(c["id"])
        if r is None: continue
        r = r[0]
        ev = [e["v"] for t in r["turns"] for e in t["ev"]]
        bad = [t for t in r["turns"] if t["kind"] in ("Panic", "Err", "Cut")]
        o = dict(id=c["id"], p=r["msg"] if r["compile"] != "ok" else "%s of a list nested %d deep: %s" % (op, n, json.dumps(bad[0])[:300]) if bad else "", out=[dict(p="", r=[x for v in ev for x in v], x=[])])
        if r["compile"] != "ok": o["p"] = "%s of a list nested %d deep: %s" % (op, n, r["msg"])
        res[c["id"]] = (o, json.dumps(o))
    cases = [dict(id=i + 1, kind="deep", ops=[dict(o=op, n=n)], obs="none") for i, (op, n) in enumerate(pairs)]
    judge(acc, cases, res, "operations on deeply nested lists")

# ------------------------------------------------------------------ generated histories
def slot_case(r):
    n, ops, issued = r.randint(5, 60), [], 0
    op = lambda o, h=0, v=0, hs=(): dict(o=o, h=h, v=v, hs=list(hs))
    wide = r.random() < .25
    for _ in range(n):
        k = r.choice(["ins"] * 6 + ["rem"] * 4 + ["get", "get", "set", "clear", "keep", "inc", "copy", "churn", "fill"])
        if k == "ins": ops.append(op("ins", v=r.randint(0, 99))); issued += 1
        elif k in ("rem", "get", "set") and issued: ops.append(op(k, r.randint(max(1, issued - 12), issued) if r.random() < .8 else r.randint(1, issued), r.randint(0, 99)))
        elif k == "keep": ops.append(op(k, 0, r.randint(0, 3), [h for h in range(1, issued + 1) if r.random() < .6]))
        elif k == "churn": v = r.choice([2, 5, 20]) if issued < 150 else 1; ops.append(op(k, v=v)); issued += v
        elif k == "fill" and wide and issued < 120: v = r.randint(1, 30); ops.append(op(k, v=v)); issued += v
        elif k in ("inc", "copy") or (k == "clear" and r.random() < .3): ops.append(op(k))
    return dict(kind="slot", ops=ops or [op("ins")], obs="all")
def slot_long(r, n):
    """one slot reused very many times, with stale handles all along"""
    op = lambda o, h=0, v=0, hs=(): dict(o=o, h=h, v=v, hs=list(hs))
    ops = [op("ins", v=1), op("ins", v=2), op("rem", 1), op("churn", v=n), op("get", 1), op("ins", v=5), op("get", 1), op("set", 1, 9), op("rem", 3), op("rem", 3 + n // 2), op("rem", 2 + n), op("get", 3 + n), op("rem", 3 + n), op("get", 2), op("clear"), op("ins", v=6), op("get", 2)]
    return dict(kind="slot", ops=ops, obs="none")
def slot_rounds(r, top):
    """one slot freed as often as any small counter of uses could count, looked at each time that one would come round"""
    op = lambda o, h=0, v=0, hs=(): dict(o=o, h=h, v=v, hs=list(hs))
    ops, freed, last = [op("ins", v=1), op("ins", v=2), op("rem", 1)], 1, 2
    for at in sorted({2 ** k for k in range(1, top)} | {10 ** k for k in range(1, 6) if 10 ** k < 2 ** top} | {2 ** k - 1 for k in range(2, top)}):
        if at < freed: continue
        if at > freed: ops.append(op("churn", v=at - freed)); last += at - freed
        ops += [op("ins", v=at % 97), op("get", 1), op("set", 1, 98), op("rem", 1)]; last += 1
        ops += [op("get", last), op("rem", last)]; freed = at + 1
    return dict(kind="slot", ops=ops, obs="none")
TK = ["", "a", "b", "B", "ab", "abc", "aB", "\u00e9", "z", "Z", "0", "10", "9", "~", "\u03a9", "e", "\U0001F600"]
def vec_case(r):
    text, srt = r.random() < .6, r.random() < .5
    keys = r.sample(TK, r.randint(2, 12)) if text else [r.choice([1, 1, 1000]) * r.randint(-20, 20) for _ in range(r.randint(2, 40))]
    ops = []
    for _ in range(r.randint(4, 60)):
        o = r.choice(["ins"] * 6 + ["get", "get", "set", "set", "inc", "ser", "collect", "rebuild"])
        ops.append(dict(o=o, k=r.choice(keys), v=r.randint(0, 1) if o == "ser" else r.randint(0, 99), es=[[r.choice(keys), r.randint(0, 9)] for _ in range(r.randint(0, 8))] if o == "collect" and r.random() < .4 else []))
    ops = [o for o in ops if o["o"] != "collect" or o["es"] or r.random() < .3]
    return dict(kind="vec", sorted=srt, text=text, ops=ops or [dict(o="inc", k=keys[0], v=0, es=[])], obs="all")
def one_case(r):
    shared = r.random() < .7
    ops, held = [], [1] if shared else []
    n = 1
    for _ in range(r.randint(2, 14)):
        if not shared: ops.append(dict(o=r.choice(["poll", "complete"]), h=0, v=r.randint(1, 99))); continue
        if not held: break
        h = r.choice(held)
        o = r.choice(["poll", "poll", "clone", "drop", "complete"])
        ops.append(dict(o=o, h=h, v=r.randint(1, 99)))
        if o == "clone": n += 1; held.append(n)
        if o in ("drop", "complete"): held.remove(h)
    return dict(kind="one", shared=shared, ops=ops, obs="none")
def bar_case(r):
    ops, held, n, c = [dict(o="new", h=0, v=0)], [1], 1, 0
    for _ in range(r.randint(3, 40)):
        o = r.choice(["new", "clone", "clone", "drop", "drop", "cond", "cclone"])
        if o == "new": n += 1; held.append(n); ops.append(dict(o=o, h=0, v=0)); continue
        if o == "cclone":
            if c: ops.append(dict(o=o, h=r.randint(1, c), v=0)); c += 1
            continue
        if not held: continue
        h = r.choice(held)
        ops.append(dict(o=o, h=h, v=0))
        if o == "clone": n += 1; held.append(n)
        if o == "drop": held.remove(h)
        if o == "cond": c += 1
    return dict(kind="bar", ops=ops, obs="all")
def idle_case(r):
    return dict(kind="idle", thresh=r.choice([1, 2, 3, 4, 5, 8]), ops=[dict(o=r.choice(["Idle"] * 5 + ["Yield"] * 5 + ["Pause", "Pause", "Normal", "Term", "Err", "Watch", "trigger"]), h=0, v=0) for _ in range(r.randint(5, 60))], obs="all")
def clock_case(r):
    return dict(kind="clock", prec=r.randint(0, 3), ops=[dict(o=r.choice(["read", "read", "read", "update"]), h=0, v=r.randint(1, 3)) for _ in range(r.randint(3, 20))], obs="none")

# ------------------------------------------------------------------ single evaluations
def evals(ops, per=100): return [dict(kind="eval", ops=ops[i:i + per], obs="none") for i in range(0, len(ops), per)]
NOTE_CH = list("CDEFGABHcdefgabhRnsx#+-0123459 ") + ["\u266f", "\u266d", "\u266e"]
def notes(r, deep):
    ops = [dict(o="midi", v=v, nat=n) for v in range(256) for n in (False, True)]
    al = NOTE_CH
    ss = [""] + al + ["".join(x) for x in itertools.product(al, repeat=2)]
    three = list(itertools.product(al, repeat=3))
    ss += ["".join(x) for x in (three if deep else r.sample(three, 8000))]
    # note names proper: letter, octave, accidentals in every order
    for l in "CDEFGABHcdefgab":
        for o in ["", "-1", "-2", "0", "+3", "4", "9", "10", "-0", "007", "11", "99999999999", "--1", "-", "2147483647", "-2147483648", "178956968", "178956971", "-178956971"]:
            for a in ["", "#", "b", "n", "s", "##", "bb", "#b", "b#", "\u266f", "\u266d", "\u266e", "sn", "###########", "bbbbbbbbbbbb", "x"]:
                ss += [l + o + a, l + a + o] if deep or r.random() < .5 else [l + a + o]
    ss += [" %s " % s for s in r.sample(ss, 300)] + ["".join(r.choice(al) for _ in range(r.randint(4, 9))) for _ in range(20000 if deep else 2500)]
    return ops + [dict(o="name", s=s) for s in dict.fromkeys(ss)]
def dy(r, lo, hi, k): return num(r.randint(lo << k, hi << k), k)
def colours(r, deep):
    ops = []
    for _ in range(60000 if deep else 9000):
        unit = lambda: r.choice([num(0), num(1), dy(r, 0, 1, 6), dy(r, 0, 1, 5), dy(r, 0, 1, 6), dy(r, -3, 4, 2)])
        h = r.choice([lambda: num(60 * r.randint(-12, 12)), lambda: dy(r, 0, 360, 2), lambda: dy(r, -2000, 2000, 2), lambda: num(r.randint(-100000, 100000)), lambda: num(360), lambda: num(0)])()
        ops.append(dict(o="hsva", h=h, s=unit(), v=unit(), a=unit()))
    edge = [0, 1, 2, 3, 63, 64, 100, 127, 128, 129, 200, 253, 254, 255]
    for c in itertools.product(edge, repeat=3): ops.append(dict(o="rgb", c=list(c) + [r.choice([0, 1, 15, 16, 127, 128, 254, 255])]))
    for a in range(256): ops.append(dict(o="rgb", c=[a, 255 - a, r.randint(0, 255), a]))
    for _ in range(60000 if deep else 6000): ops.append(dict(o="rgb", c=[r.randint(0, 255) for _ in range(4)]))
    return ops
WILD = ["", "a", "costume", "a&b", "<x>", "say \"hi\"", "don't", "&amp;", "&lt;b&gt;", "&;", "&#65;", "&foo;", "\u00e9", "\U0001F600!", " lead", "tab\tx", "new\nline", "\r\n", "]]>", "<!-- -->", "%41", "a;b", "\\", "\\u0041", "null", "&&&amp;;", "< costume", "<costume", "<sound name=\"", "data:image/png;base64,", "\uff01\u2028", "\x7f"]
def pval(r, d=0, media=True):
    k = r.random()
    n = lambda: r.choice([num(0), num(1), num(-1), num(r.randint(-10 ** 6, 10 ** 6)), num(r.randint(-9999, 9999), r.randint(0, 8)), {"t": "u", "f": r.choice(["0.1", "-3.3", "1e300", "5e-324", "1.7976931348623157e308", "123456789012345680", "9007199254740993", "1e21", "-0.000001", "2.2250738585072014e-308", "-0.0"])}])
    if k < .12: return boo(r.random() < .5)
    if k < .35: return n()
    if k < .6 or d > 3: return txt(r.choice(WILD) if r.random() < .8 else "".join(r.choice("ab<>&\"' \u00e9;#x=/") for _ in range(r.randint(1, 8))))
    if k < .72 and media:
        c = [r.choice([0, 1, 62, 63, 127, 128, 250, 251, 255, r.randint(0, 255)]) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 30]))]
        name = r.choice(WILD) if r.random() < .7 else "pic %d" % r.randint(0, 9)
        if r.random() < .6: return dict(t="i", i=name, c=c, cx=[] if r.random() < .5 else [n(), n()])
        return dict(t="au", au=name, c=c)
    return dict(t="l", e=[pval(r, d + 1, media) for _ in range(r.choice([0, 1, 2, 3, 5]))])
def marked(v): # text which is itself markup for an image or sound says that, not text
    return v["t"] == "s" and re.match(r"\s*<\s*(costume|sound)\b.*", v["s"], re.S) and ">" in v["s"] or v["t"] == "l" and any(marked(x) for x in v["e"])
def pdoc(r, d=0):
    k = r.random()
    if k < .06: return dict(t="null")
    if k < .3 and d > 0 or k < .15: return pval(r, 9, False)
    if k < .6:
        kind = r.choice(["costume", "costume", "sound", "sound", "x:costume", "Costume", "div", "costumes"])
        at = []
        for _ in range(r.randint(0, 5)):
            n = r.choice(["name", "center-x", "center-y", "image", "image", "sound", "sound", "zoom", "x:name"])
            if n in ("image", "sound") and r.random() < .8: at.append(dict(n=n, v=r.choice(["data:image/png;base64,", "data:image/png;base64,", "data:audio/mpeg;base64,", "data:image/;base64,", "data:text/plain;base64,", "DATA:image/png;base64,"]), c=[r.randint(0, 255) for _ in range(r.randint(0, 5))]))
            elif n in ("image", "sound"): at.append(dict(n=n, v=r.choice(["", "data:image/png", "data:audio/mpeg,base64", "x", "data:image/png;base64", "data:image/png;base64,!!!", "data:audio/x;base64,A", "data:image/png;base64,QQ", "data:image/x;base64,QUE=="]), c=[]))
            elif n.startswith("center"): at.append(dict(n=n, v=r.choice(["0", "1.5", "-3", "x", "", "inf", "NaN", "1e400", "+2", " 1", "1e2", "0x10"]), c=[]))
            else: at.append(dict(n=n, v=r.choice(WILD[:20] + ["x"]), c=[]))
        if r.random() < .6: # mostly something with content
            at.insert(r.randint(0, len(at)), dict(n="sound" if "sound" in kind else "image", v="data:%s/x;base64," % ("audio" if "sound" in kind else "image"), c=[r.randint(0, 255) for _ in range(r.randint(0, 5))]))
        seen, out = set(), []
        for a in at:
            if a["n"] not in seen or r.random() < .3: out.append(a)
            seen.add(a["n"])
        return dict(t="x", tag=kind, at=out, end=r.choice([" />", "/>", ">", ">x</y>", "", " ", " image", "/", " =>"]))
    if k < .8 or d > 3: return dict(t="l", e=[pdoc(r, d + 1) for _ in range(r.randint(0, 4))]) if d < 4 else txt("x")
    ks = sorted(r.sample(["", "a", "b", "c", "k 1", "z"], r.randint(0, 4)))
    return dict(t="o", e=[[x, pdoc(r, d + 1)] for x in ks])
def unmark(d): # in the plain JSON reading, markup is just text: not generated there
    return not (d["t"] == "x" or d["t"] == "l" and not all(unmark(x) for x in d["e"]) or d["t"] == "o" and not all(unmark(x[1]) for x in d["e"]))
def nomark_inside(d): # below the top, markup read as text would have to be compared as text
    if d["t"] == "l": return all(x["t"] != "x" and nomark_inside(x) for x in d["e"])
    if d["t"] == "o": return all(x[1]["t"] != "x" and nomark_inside(x[1]) for x in d["e"])
    return True
def graph(r):
    n = r.randint(1, 6)
    g = []
    for i in range(n):
        k = r.random()
        if k < .7: g.append(dict(t="l", m=[r.randint(1 if r.random() < .15 else min(i + 2, n), n) for _ in range(r.randint(0, 3))]))
        elif k < .74: g.append(dict(t="native"))
        else: g.append(r.choice([num(r.randint(-9, 9) or 3), num(r.choice([1, 3, -5, 7, 1001]), r.randint(1, 3)), txt("x"), txt(r.choice(["", "12", " 0O17", "0x1f", "a\"b", "c\\d", "e\nf", "[g]"])), boo(r.random() < .5), dict(t="i", i="im", c=[1, 2], cx=[]), dict(t="au", au="so", c=[3])]))
    return dict(o="graph", g=g, v=r.choice([1, 1, 1, r.randint(1, n)]))
def plain(r, n):
    ops = []
    for _ in range(n):
        k = r.random()
        if k < .25: ops.append(dict(o="tojson", v=pval(r, 0, r.random() < .3)))
        elif k < .55:
            v = pval(r)
            if not marked(v): ops.append(dict(o="tonb", v=v))
        elif k < .65:
            d = pdoc(r)
            if unmark(d): ops.append(dict(o="fromjson", j=d))
        elif k < .82:
            d = pdoc(r)
            if nomark_inside(d) and not marked(d): ops.append(dict(o="fromnb", j=d))
        else: ops.append(graph(r))
    return ops
