"""Small projects whose every history TLC explores (spec/Explore.tla): one list per property.
A world is a project and a menu; before each turn the environment picks an entry of the menu."""
import os, re, json, random, shutil, subprocess, threading, time
import drv
from gen import *

def E(*i, t=0, msg=None): return {"t": t, "in": list(i), "msg": [msg] if msg else []}
def W(name, p, menu, depth, **k):
    c = case(p, env(snap0=False, clock=any(n["o"] in ("timer", "resettimer", "realtime") for n in p.nodes), **k))
    c["menu"], c["name"], c["depth"] = menu, name, depth
    return c
def clo(p, *st, params=(), caps=()): return p.n("closure", p.block(*st), s=list(params) + list(caps), v=num(len(params)))
def P(): return Proj(random.Random(1))
def steps(p, name, k): # k turns long, and heard at each
    return [x for i in range(k) for x in (p.says("%s%d" % (name, i)), p.n("repeat", p.lit(1), p.block()))]
def slow(p, name, k): return p.n("repeat", p.lit(k), p.block(p.says(name)))
NET = [E(), E(t=1000)]

def C01():
    p = P(); e = p.ent("a"); f = p.ent("b")
    p.script(e, ["flag"], *steps(p, "x", 3))
    p.script(e, ["key", "k"], p.n("warp", p.block(slow(p, "w", 2))), *steps(p, "y", 2))
    p.script(f, ["flag"], p.n("forever", p.block(p.says("f"))))
    p.script(f, ["key", "j"], p.n("fork", clo(p, *steps(p, "forked", 2))), slow(p, "z", 2))
    yield W("loops", p, [E(), E(start()), E(key("k")), E(key("j"))], 7)
    p = P(); e = p.ent("a"); p.glob("g", 0)
    p.func("quick", ["n"], p.block(p.n("warp", p.block(p.n("repeat", p.var("n"), p.block(p.n("addassign", p.lit(1), s=["g"]))), p.n("return", p.var("g"))))))
    p.script(e, ["key", "q"], p.n("say", p.n("callfn", p.lit(2), s=["quick"])), *steps(p, "after", 2))
    p.script(e, ["key", "s"], p.n("warp", p.block(p.n("sleep", p.lit(1)), slow(p, "nap", 2))), *steps(p, "woken", 1))
    p.script(e, ["key", "t"], p.n("try", p.block(p.n("warp", p.block(slow(p, "in", 1), p.n("throw", p.lit("x"))))), p.block(*steps(p, "caught", 2)), s=["err"]), *steps(p, "t", 1))
    yield W("warp", p, [E(), E(t=1000), E(key("q")), E(key("s")), E(key("t"))], 6)
    p = P(); e = p.ent("a"); p.glob("g", 0)
    p.script(e, ["flag"], p.n("showvar", s=["g"]), p.n("repeat", p.lit(2), p.block(p.n("addassign", p.lit(1), s=["g"]), p.n("pause"))), p.n("hidevar", s=["g"]))
    p.script(e, ["key", "k"], p.n("waituntil", p.n("gt", p.var("g"), p.lit(1))), *steps(p, "w", 2))
    p.script(e, ["key", "j"], slow(p, "j", 3))
    yield W("pauses", p, [E(), E(start()), E(key("k")), E(key("j"))], 7)
def C02():
    p = P(); e = p.ent("a")
    p.script(e, ["key", "k"], *steps(p, "k", 3))
    p.script(e, ["key", "any key"], p.says("any"), *steps(p, "y", 1))
    p.script(e, ["flag"], *steps(p, "f", 2))
    yield W("keys", p, [E(), E(start()), E(key("k")), E(key("j")), E(stop())], 6)
    p = P(); e = p.ent("a"); f = p.ent("b")
    for s in (e, f): p.script(s, ["ev", "go", "x"], p.say(p.var("x")), *steps(p, s["name"], 2 if s is e else 1), p.say(p.var("x")))
    yield W("events", p, [E(), E(evt("go", [("x", 1)], mq=0)), E(evt("go", [("x", 2)], mq=1)), E(evt("go", [("x", 3)], mq=-1)), E(evt("go", [("x", 4)], interrupt=True, mq=2)), E(stop())], 5)
    p = P(); e = p.ent("a")
    p.script(e, ["ev", "go", "x"], p.say(p.var("x")), p.n("if", p.n("eq", p.var("x"), p.lit(3)), p.block(p.n("throw", p.lit("three")))), *steps(p, "g", 1))
    p.script(e, ["flag"], p.says("flag"), p.n("fork", clo(p, *steps(p, "h", 2))), *steps(p, "f", 1))
    yield W("errors and launches", p, [E(), E(start()), E(evt("go", [("x", 1)], mq=1)), E(evt("go", [("x", 3)], mq=2)), E(start(), evt("go", [("x", 5)], mq=1)), E(stop(), start())], 5)
def C03():
    def recv(p, e, f):
        p.script(e, ["msg", "m"], p.say(p.n("message")), *steps(p, "e", 2))
        p.script(f, ["anymsg"], p.say(p.n("message")), *steps(p, "f", 3))
        p.script(f, ["msg", "n"], *steps(p, "n", 1))
    p = P(); e = p.ent("a"); f = p.ent("b"); recv(p, e, f)
    p.script(e, ["key", "w"], p.n("broadcast", p.lit("m"), s=["wait"]), p.says("went on"))
    p.script(e, ["key", "x"], p.n("broadcast", p.lit("m"), s=[""]), p.says("sent"))
    p.script(e, ["key", "v"], p.n("broadcast", p.lit("n"), s=["wait"]), p.says("n done"))
    yield W("broadcasts", p, [E(), E(key("w")), E(key("x")), E(key("v")), E(stop())], 6)
    p = P(); e = p.ent("a"); f = p.ent("b")
    p.script(e, ["key", "w"], p.n("broadcast", p.lit("m"), p.n("entity", s=["b"]), s=["wait"]), p.says("b done"))
    p.script(f, ["msg", "m"], p.says("b"), p.n("broadcast", p.lit("n"), s=["wait"]), p.says("b on"))
    p.script(e, ["msg", "n"], *steps(p, "n", 1))
    p.script(e, ["msg", "m"], p.says("never"))
    p.script(f, ["key", "k"], p.n("broadcast", p.lit("n"), p.n("list", p.n("entity", s=["a"]), p.n("entity", s=["b"])), s=[""]), p.says("k"))
    p.script(f, ["key", "s"], p.n("stop", s=["others"]))
    yield W("nested", p, [E(), E(key("w")), E(key("k")), E(key("s"))], 7)
    p = P(); e = p.ent("a")
    p.glob("g", 0)
    p.script(e, ["msg", "m"], p.n("addassign", p.lit(1), s=["g"]), p.say(p.var("g")), p.n("if", p.n("lt", p.var("g"), p.lit(3)), p.block(p.n("broadcast", p.lit("m"), s=["wait"]), p.says("never"))), *steps(p, "m", 1))
    p.script(e, ["key", "w"], p.set("g", p.lit(0)), p.n("broadcast", p.lit("m"), s=["wait"]), p.says("w"))
    p.script(e, ["anymsg"], *steps(p, "any", 2))
    p.script(e, ["key", "k"], p.n("try", p.block(p.n("broadcast", p.n("list"), s=["wait"])), p.block(p.say(p.var("err"))), s=["err"]))
    yield W("self", p, [E(), E(key("w")), E(key("k")), E(stop())], 6)
def C04():
    p = P(); e = p.ent("a"); f = p.ent("b")
    p.script(e, ["net", "q", "x"], p.say(p.var("x")), *steps(p, "q", 1), p.n("reply", p.n("strcat", p.n("list", p.lit("r"), p.var("x")))), *steps(p, "q", 1))
    p.script(f, ["net", "q", "y", "x"], p.say(p.n("list", p.var("y"), p.var("x"))))
    p.script(f, ["net", "o", "z"], p.say(p.var("z")), p.n("reply", p.lit("o")))
    m = [E(), E(msg=msg("q", [("x", 1)], "c/1")), E(msg=msg("q", [("x", 2), ("y", "v")])), E(msg=msg("o", [("z", [1, 2])], "c/2")), E(stop())]
    yield W("handlers", p, m, 5)
    p = P(); e = p.ent("a"); f = p.ent("b")
    p.script(e, ["net", "q", "x"], p.n("sleep", p.lit(1)), p.say(p.var("x")), p.n("reply", p.var("x")))
    p.script(e, ["key", "e"], p.n("throw", p.lit("boom")))
    p.script(f, ["key", "s"], p.n("stop", s=["allbut"]), p.says("s"))
    p.script(e, ["key", "w"], p.n("fork", clo(p, p.n("reply", p.lit("nobody")))))
    yield W("sleepy", p, [E(), E(t=1000), E(msg=msg("q", [("x", 1)], "c/1")), E(msg=msg("q", [("x", 2)], "c/2")), E(key("s")), E(key("w"))], 5)
def C05():
    for mode in ("script", "all", "allbut", "others"):
        p = P(); e = p.ent("a"); f = p.ent("b")
        p.script(e, ["key", "s"], p.says("s"), p.n("stop", s=[mode]), *steps(p, "on", 1))
        p.script(e, ["key", "k"], *steps(p, "k", 3))
        p.script(f, ["key", "t"], p.n("scallcloin", p.n("entity", s=["a"]), clo(p, *steps(p, "told", 2), p.n("stop", s=[mode]), *steps(p, "told", 1))), p.says("t"))
        p.script(f, ["ev", "go", "x"], p.say(p.var("x")), *steps(p, "g", 1))
        yield W("stop " + mode, p, [E(), E(key("s")), E(key("k")), E(key("t")), E(evt("go", [("x", 1)], mq=2))], 5)
    p = P(); e = p.ent("a")
    p.func("f", ["n"], p.block(p.says("in"), p.n("if", p.n("gt", p.var("n"), p.lit(0)), p.block(p.n("warp", p.block(p.n("stop", s=["block"]))))), *steps(p, "f", 1), p.n("return", p.var("n"))))
    p.script(e, ["key", "b"], p.say(p.n("callfn", p.lit(1), s=["f"])), *steps(p, "b", 1))
    p.script(e, ["key", "c"], p.say(p.n("callfn", p.lit(0), s=["f"])), p.n("stop", s=["block"]), p.says("never"))
    p.script(e, ["key", "d"], p.n("fork", clo(p, *steps(p, "d", 2))), p.n("broadcast", p.lit("m"), s=["wait"]), p.says("d on"))
    p.script(e, ["msg", "m"], *steps(p, "m", 1), p.n("stop", s=["others"]), *steps(p, "m", 1))
    yield W("stop block", p, [E(), E(key("b")), E(key("c")), E(key("d"))], 6)
def C06():
    p = P(); e = p.ent("a"); e["fields"].append(["f", num(0)]); f = p.ent("b")
    p.script(e, ["key", "c"], p.n("addassign", p.lit(1), s=["f"]), p.n("sclone", p.n("this")), p.says("made"))
    p.script(e, ["clone"], p.say(p.var("f")), *steps(p, "born", 1))
    p.script(e, ["key", "d"], p.say(p.var("f")), p.n("deleteclone"), *steps(p, "stays", 1))
    p.script(e, ["key", "k"], *steps(p, "k", 2))
    yield W("clones", p, [E(), E(key("c")), E(key("d")), E(key("k")), E(stop())], 5)
    p = P(); e = p.ent("a"); f = p.ent("b"); p.glob("c", 0)
    p.script(e, ["flag"], p.set("c", p.n("clone", p.n("this"))), *steps(p, "made", 1))
    p.script(e, ["clone"], p.n("broadcast", p.lit("m"), s=["wait"]), p.says("clone on"))
    p.script(e, ["msg", "m"], *steps(p, "m", 1))
    p.script(e, ["key", "d"], p.n("deleteclone"), p.says("not a clone"))
    p.script(f, ["key", "t"], p.n("scallcloin", p.var("c"), clo(p, *steps(p, "told", 2), p.n("deleteclone"), p.says("after"))), p.says("t"))
    p.script(f, ["key", "n"], p.set("c", p.n("clone", p.var("c"))))
    yield W("clones of clones", p, [E(), E(start()), E(key("d")), E(key("t")), E(key("n"))], 5)
def C08():
    p = P(); e = p.ent("a"); p.glob("l", lst()); p.glob("f", 0)
    p.script(e, ["key", "m"], p.n("locals", s=["n"]), p.set("n", p.lit(5)), p.set("f", clo(p, p.n("addassign", p.var("d"), s=["n"]), p.n("return", p.var("n")), params=["d"], caps=["n"])), *steps(p, "m", 1), p.say(p.var("n")))
    p.script(e, ["key", "c"], p.n("try", p.block(p.say(p.n("callclo", p.var("f"), p.lit(1)))), p.block(p.say(p.var("err"))), s=["err"]))
    p.script(e, ["key", "f"], p.n("locals", s=["v"]), p.set("v", p.lit(1)), p.n("fork", clo(p, p.n("repeat", p.lit(2), p.block(p.n("addassign", p.lit(10), s=["v"]))), p.say(p.var("v")), caps=["v"])), p.n("addassign", p.lit(1), s=["v"]), *steps(p, "f", 1), p.say(p.var("v")))
    yield W("closures", p, [E(), E(key("m")), E(key("c")), E(key("f"))], 6)
def C09():
    p = P(); e = p.ent("a"); p.glob("r", 0)
    p.func("down", ["n"], p.block(p.n("if", p.n("gt", p.var("n"), p.lit(0)), p.block(p.n("return", p.n("callfn", p.n("sub", p.var("n"), p.lit(1)), s=["down"])))), *steps(p, "deep", 1), p.n("return", p.var("n"))))
    p.script(e, ["ev", "d", "n"], p.n("try", p.block(p.say(p.n("callfn", p.var("n"), s=["down"]))), p.block(p.say(p.var("err"))), s=["err"]), *steps(p, "end", 1))
    p.script(e, ["ev", "e", "n"], p.say(p.n("callclo", clo(p, p.n("return", p.n("callfn", p.var("n"), s=["down"])), caps=["n"]))))
    yield W("depth", p, [E()] + [E(evt(k, [("n", i)], mq=1)) for k, i in (("d", 2), ("d", 3), ("d", 4), ("e", 2), ("e", 3), ("e", 1))], 4, maxdepth=5)
def C10():
    p = P(); e = p.ent("a"); p.glob("g", 0)
    p.func("f", ["n"], p.block(p.n("try", p.block(p.n("if", p.n("eq", p.var("n"), p.lit(1)), p.block(p.n("return", p.lit("early")))), p.n("if", p.n("eq", p.var("n"), p.lit(2)), p.block(p.n("throw", p.lit("inner")))), *steps(p, "f", 1)), p.block(p.say(p.var("err")), p.n("if", p.n("eq", p.var("g"), p.lit(1)), p.block(p.n("throw", p.lit("again"))))), s=["err"]), p.n("return", p.var("n"))))
    p.script(e, ["ev", "t", "n"], p.n("try", p.block(p.say(p.n("callfn", p.var("n"), s=["f"])), p.n("throw", p.lit("outer"))), p.block(p.say(p.n("strcat", p.n("list", p.lit("! "), p.var("err"))))), s=["err"]), *steps(p, "t", 1), p.n("throw", p.lit("end")))
    p.script(e, ["key", "g"], p.n("addassign", p.lit(1), s=["g"]))
    p.script(e, ["key", "k"], *steps(p, "k", 2))
    yield W("handlers", p, [E(), E(evt("t", [("n", 0)], mq=0)), E(evt("t", [("n", 1)], mq=1)), E(evt("t", [("n", 2)], interrupt=True)), E(key("g")), E(key("k"))], 5)
def C18():
    p = P(); e = p.ent("a")
    p.script(e, ["key", "a"], p.n("sleep", p.lit(1)), p.says("a"), p.n("sleep", p.lit((1, 1))), p.says("a2"))
    p.script(e, ["key", "b"], p.n("sleep", p.lit((3, 1))), p.say(p.n("timer")))
    p.script(e, ["key", "r"], p.n("resettimer"), p.n("sleep", p.lit(0)), p.say(p.n("timer")))
    yield W("naps", p, [E(), E(t=500), E(t=1000), E(key("a")), E(key("b")), E(key("r"))], 5)
    p = P(); e = p.ent("a"); p.glob("g", 0)
    p.script(e, ["key", "a"], p.n("warp", p.block(p.n("sleep", p.lit(1)), p.says("a"))), *steps(p, "s", 1))
    p.script(e, ["key", "n"], p.n("sleep", p.lit(-1)), p.says("n"))
    p.script(e, ["key", "w"], p.n("waituntil", p.n("gt", p.n("timer"), p.lit(1))), p.says("w"))
    p.script(e, ["flag"], p.n("say", p.lit("hi"), p.lit(1)), p.says("bye"))
    yield W("waits", p, [E(), E(t=500), E(t=1500), E(key("a")), E(key("n")), E(key("w")), E(start())], 5)

def add(e, i, *hat, fn=False, to=None): return {"k": "add", "e": e, "i": i, "hat": list(hat), "fn": fn, "to": to or e}
def C31():
    # the same script again, a script without a hat, and each under the other's event
    p = P(); e = p.ent("a"); f = p.ent("b")
    p.script(e, ["key", "k"], *steps(p, "k", 2))
    p.script(e, ["none"], *steps(p, "n", 1))
    p.script(f, ["key", "j"], *steps(p, "j", 1))
    yield W("added", p, [E(), E(key("k")), E(add(1, 2, "key", "k")), E(add(1, 1, "key", "j", to=2)), E(key("j"))], 5, dyn=True)
    # clones take along what was added to their original by then; deleted ones lose it
    p = P(); e = p.ent("a"); p.glob("c", 0)
    p.script(e, ["key", "c"], p.n("if", p.n("lt", p.var("c"), p.lit(2)), p.block(p.n("addassign", p.lit(1), s=["c"]), p.n("sclone", p.n("this")))), *steps(p, "c", 1))
    p.script(e, ["none"], *steps(p, "n", 1), p.n("deleteclone"))
    yield W("clones", p, [E(), E(key("c")), E(add(1, 2, "key", "k")), E(add(1, 2, "clone")), E(key("k"))], 5)
    # a custom block as a script, its parameter given by an event
    p = P(); e = p.ent("a"); p.glob("g", 0)
    p.func("fn", ["x"], p.block(p.say(p.var("x")), *steps(p, "f", 1), p.n("return", p.var("x"))))
    p.script(e, ["key", "b"], p.n("broadcast", p.lit("m"), s=["wait"]), p.says("b"))
    yield W("blocks", p, [E(), E(add(0, 1, "ev", "run", "x", fn=True, to=1)), E(evt("run", [("x", 5)], False, 1)), E(add(0, 1, "anymsg", fn=True, to=1)), E(key("b"))], 5)
WORLDS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C08=C08, C09=C09, C10=C10, C18=C18, C31=C31)
TAIL = [turn(0) for _ in range(10)]

def explore(tmp, worlds, deeper=0, timeout=600):
    """TLC over each world, side by side -> [(world, histories, stats)]"""
    jobs = []
    for i, w in enumerate(worlds):
        fc = "%s/w%d.ndjson" % (tmp, i)
        open(fc, "w", encoding="utf-8").write(json.dumps(w, ensure_ascii=False) + "\n")
        jobs.append((i, w, fc))
    out, lock = [], threading.Lock()
    def work():
        while True:
            with lock:
                if not jobs: return
                i, w, fc = jobs.pop(0)
            fo = "%s/w%d.out" % (tmp, i)
            p, meta = drv.tlc("Explore.tla", "Explore.cfg", tmp, dict(FILE_CASES=fc, DEPTH=str(w["depth"] + deeper)), mem=3000)
            late = False
            with open(fo, "wb") as f:
                t = threading.Thread(target=lambda: [f.write(c) for c in iter(lambda: p.stdout.read(1 << 16), b"")])
                t.start()
                try: p.wait(timeout)
                except subprocess.TimeoutExpired: p.kill(); late = True
                t.join()
            shutil.rmtree(meta, ignore_errors=True)
            hs, tail, st = [], [], dict(generated=0, distinct=0)
            for l in open(fo, encoding="utf-8", errors="replace"):
                if l.startswith('"HIST\\t'): hs.append(tuple(json.loads(drv.unq(l.strip()[1:-1])[5:])))
                else:
                    tail.append(l)
                    m = re.search(r"(\d+) states generated.*?(\d+) distinct states found", l)
                    if m: st = dict(generated=int(m.group(1).replace(",", "")), distinct=int(m.group(2)))
            os.remove(fo)
            txt = "".join(tail)
            out.append((i, w, hs, st, "timeout" if late else "" if "No error has been found" in txt else txt))
    ths = [threading.Thread(target=work) for _ in range(drv.NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    return [x[1:] for x in sorted(out, key=lambda x: x[0])]
def maximal(hs):
    """histories which are no beginning of another"""
    hs = sorted(set(hs))
    return [h for i, h in enumerate(hs) if i + 1 == len(hs) or hs[i + 1][:len(h)] != h]
def case_of(w, h):
    c = {k: v for k, v in w.items() if k not in ("menu", "depth", "name")}
    now, ts = 0, []
    for i in h:
        m = w["menu"][i - 1]
        now += m["t"]
        ts.append({"t": now, "in": m["in"], "msg": m["msg"], "sn": False})
    for t in TAIL: ts.append(dict(t, t=now))
    for k in range(4):
        now += 1000
        ts.append(turn(now))
    ts[-1]["sn"] = True
    c["env"] = dict(w["env"], turns=ts)
    c["env"].pop("clock")
    return c
