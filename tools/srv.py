"""The command-line tool: generated sessions with the execution server (`start`) and runs of project files (`run`, piped or in a terminal),
recorded on the real binary, for spec/Server.tla to check.

A session: {id, mode: "start"|"pipe"|"tty", projs: [{role, nodes, env, name}], ops: [..]}; the record: {id, res: [..]}, one answer per operation."""
import os, re, fcntl, signal, sys, json, time, random, socket, struct, base64, hashlib, threading, subprocess, tempfile, select, pty, tty, termios, shutil, queue, http.client
import drv
from gen import Proj, env, num, txt, boo, lst

# --------------------------------------------------------------------------- projects
def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")
EXPRS = dict(add="reportVariadicSum", mul="reportVariadicProduct", sub="reportDifference", eq="reportEquals", lt="reportLessThan", gt="reportGreaterThan", listlen=None, strcat="reportJoinWords",
             listget="reportListItem", answer="getLastAnswer", message="getLastMessage")
EXPRS["not"] = "reportNot"
class Xml:
    """the project file of a Proj"""
    def __init__(s, p): s.p = p
    def tag(s, i, name, *ch):
        l = s.p.nodes[i - 1]["l"]
        return "<block%s s=\"%s\">%s</block>" % (' collabId="%s"' % esc(l) if l else "", name, "".join(ch))
    def script(s, i): return "<script>%s</script>" % "".join(s.stmt(x) for x in s.p.nodes[i - 1]["a"])
    def opt(s, x): return "<l><option>%s</option></l>" % x
    def expr(s, i):
        d = s.p.nodes[i - 1]
        o, a = d["o"], d["a"]
        l = ' collabId="%s"' % esc(d["l"]) if d["l"] else ""
        if o == "lit":
            v = d["v"]
            return "<l>%s</l>" % esc(v["s"]) if v["t"] == "s" else '<block s="reportBoolean"><l><bool>%s</bool></l></block>' % str(v["b"]).lower()
        if o == "var": return '<block%s var="%s"/>' % (l, esc(d["s"][0]))
        if o == "list": return s.tag(i, "reportNewList", "<list>%s</list>" % "".join(s.expr(x) for x in a))
        if o in ("add", "mul", "strcat"):
            d1 = s.p.nodes[a[0] - 1]
            return s.tag(i, EXPRS[o], "<list>%s</list>" % "".join(s.expr(x) for x in d1["a"]) if d1["o"] == "list" and not d1["l"] else s.expr(a[0]))
        if o == "listlen": return s.tag(i, "reportListAttribute", s.opt("length"), s.expr(a[0]))
        if o == "this": return s.tag(i, "reportGet", s.opt("self")) if False else ""
        if o == "callfn": return s.call(i)
        if o == "callsys": return s.tag(i, "nativeCallSyscall", s.expr(a[0]), s.expr(a[1]))
        if o == "syserror": return s.tag(i, "nativeSyscallError")
        return s.tag(i, EXPRS[o], *[s.expr(x) for x in a])
    def call(s, i):
        d = s.p.nodes[i - 1]
        return '<custom-block%s s="%s">%s</custom-block>' % (' collabId="%s"' % d["l"] if d["l"] else "", esc(d["s"][0] + " %s" * len(d["a"])), "".join(s.expr(x) for x in d["a"]))
    def stmt(s, i):
        d = s.p.nodes[i - 1]
        o, a, st = d["o"], d["a"], d["s"]
        E, S = s.expr, s.script
        if o == "say": return s.tag(i, "bubble", E(a[0]))
        if o == "think": return s.tag(i, "doThink", E(a[0]))
        if o == "assign": return s.tag(i, "doSetVar", "<l>%s</l>" % esc(st[0]), E(a[0]))
        if o == "addassign": return s.tag(i, "doChangeVar", "<l>%s</l>" % esc(st[0]), E(a[0]))
        if o == "locals": return s.tag(i, "doDeclareVariables", "<list>%s</list>" % "".join("<l>%s</l>" % esc(x) for x in st))
        if o == "if": return s.tag(i, "doIf", E(a[0]), S(a[1]))
        if o == "ifelse": return s.tag(i, "doIfElse", E(a[0]), S(a[1]), S(a[2]))
        if o == "repeat": return s.tag(i, "doRepeat", E(a[0]), S(a[1]))
        if o == "until": return s.tag(i, "doUntil", E(a[0]), S(a[1]))
        if o == "for": return s.tag(i, "doFor", "<l>%s</l>" % st[0], E(a[0]), E(a[1]), S(a[2]))
        if o == "foreach": return s.tag(i, "doForEach", "<l>%s</l>" % st[0], E(a[0]), S(a[1]))
        if o == "warp": return s.tag(i, "doWarp", S(a[0]))
        if o == "try": return s.tag(i, "doTryCatch", S(a[0]), "<l>%s</l>" % st[0], S(a[1]))
        if o == "throw": return s.tag(i, "doThrow", E(a[0]))
        if o == "return": return s.tag(i, "doReport", E(a[0]))
        if o == "broadcast": return s.tag(i, "doBroadcastAndWait" if st[0] else "doBroadcast", E(a[0]))
        if o == "pause": return s.tag(i, "doPauseAll")
        if o == "stop": return s.tag(i, "doStopThis", s.opt(dict(script="this script", all="all", allbut="all but this script", others="other scripts in sprite", block="this block")[st[0]]))
        if o == "sclone": return s.tag(i, "createClone", s.opt("myself"))
        if o == "deleteclone": return s.tag(i, "removeClone")
        if o == "listinsertlast": return s.tag(i, "doAddToList", E(a[0]), E(a[1]))
        if o == "runsys": return s.tag(i, "nativeRunSyscall", E(a[0]), E(a[1]))
        if o == "ask": return s.tag(i, "doAsk", E(a[0]))
        if o == "scallfn": return s.call(i)
        raise KeyError(o)
    def hat(s, h):
        if h[0] == "flag": return '<block s="receiveGo"></block>'
        if h[0] == "clone": return '<block s="receiveOnClone"></block>'
        if h[0] == "msg": return '<block s="receiveMessage"><l>%s</l></block>' % esc(h[1])
        if h[0] == "anymsg": return '<block s="receiveMessage">%s</block>' % s.opt("any message")
        if h[0] == "key": return '<block s="receiveKey">%s</block>' % s.opt(esc(h[1]))
        raise KeyError(h[0])
    def vars(s, defs):
        def v(x): return "<l>%s</l>" % esc(x["s"]) if x["t"] == "s" else "<list>%s</list>" % "".join("<item>%s</item>" % v(y) for y in x["e"])
        return "<variables>%s</variables>" % "".join('<variable name="%s">%s</variable>' % (esc(n), v(x)) for n, x in defs)
    def fns(s, fs):
        return "<blocks>%s</blocks>" % "".join('<block-definition s="%s" type="%s" category="custom"><header></header><code></code><translations></translations><inputs>%s</inputs>%s</block-definition>' % (
            esc(f["name"] + "".join(" %%'%s'" % x for x in f["params"])), f["kind"], '<input type="%s"></input>' * len(f["params"]), s.script(f["body"])) for f in fs)
    def scripts(s, e): return "<scripts>%s</scripts>" % "".join("<script>%s%s</script>" % (s.hat(c["hat"]), "".join(s.stmt(x) for x in s.p.nodes[c["body"] - 1]["a"])) for c in e["scripts"])
    def inner(s, e): return "<costumes><list></list></costumes><sounds><list></list></sounds>" + "<blocks></blocks>" + s.vars(e["fields"]) + s.scripts(e)
    def role(s, name):
        p = s.p
        sprites = "".join('<sprite name="%s" idx="%d" x="0" y="0" heading="90" scale="1" volume="100" pan="0" rotation="1" draggable="true" costume="0" color="80,80,80,1" pen="tip">%s</sprite>' % (esc(e["name"]), i + 1, s.inner(e)) for i, e in enumerate(p.ents[1:]))
        return ('<role name="%s"><project name="%s" app="NetsBlox 1.32.0, http://netsblox.org" version="1.32.0"><notes></notes><stage name="%s" width="480" height="360" costume="0" color="255,255,255,1" tempo="60" threadsafe="false">%s<sprites>%s</sprites></stage>'
                '<hidden></hidden><headers></headers><code></code>%s%s</project><media name="%s"></media></role>') % (esc(name), esc(name), esc(p.ents[0]["name"]), s.inner(p.ents[0]), sprites, s.fns(p.funcs), s.vars(p.globals), esc(name))

NAMES = ["prog", "a b", "it's", "p\u00e9", "x<y & z", "1", "\"q\"", "Untitled"]
TXT = ["", "a", "hi there", "7", "12", "-3", "it's", "say \"x\"", "x<y", "a\\b", "\u00e9\u03bb", "tab\there", "\U0001F600"]
class Maker:
    def __init__(s, r, asks=False, pauses=True, keys=(), files=None):
        s.r, s.p, s.k = r, Proj(r, 1 if r.random() < .75 else .5), 0
        s.asks, s.pauses, s.keys, s.files = asks, pauses, keys, files
    def name(s, pre="v"):
        s.k += 1
        return pre + str(s.k)
    def lit(s, x): return s.p.n("lit", v=txt(str(x)))
    def num(s, vs, d=2):
        r, p = s.r, s.p
        k = r.random()
        nv = [v for v, t in vs if t == "n"]
        if d <= 0 or k < .4: return s.lit(r.choice([0, 1, 2, 3, 5, 10, -4])) if not nv or r.random() < .4 else p.var(r.choice(nv))
        if k < .7: return p.n("add", p.n("list", *[s.num(vs, d - 1) for _ in range(r.randint(1, 3))], l=""))
        if k < .8: return p.n("sub", s.num(vs, d - 1), s.num(vs, d - 1))
        if k < .9: return p.n("listlen", s.list(vs, d - 1))
        if s.rfns and k < .97: return s.callx(vs, d)
        return p.n("listget", s.lit(r.choice([1, 1, 1, 2, 9])), s.list(vs, d - 1))
    def callx(s, vs, d):
        f = s.r.choice(s.rfns)
        return s.p.n("callfn", *[s.num(vs, d - 1) for _ in f["params"]], s=[f["name"]])
    def list(s, vs, d=1):
        r, p = s.r, s.p
        lv = [v for v, t in vs if t == "l"]
        return p.var(r.choice(lv)) if lv and r.random() < .6 else p.n("list", *[s.any(vs, d - 1) for _ in range(r.randint(1, 3))])
    def text(s, vs, d=2):
        r, p = s.r, s.p
        return s.lit(r.choice(TXT)) if d <= 0 or r.random() < .5 else p.n("strcat", p.n("list", *[s.any(vs, 0) for _ in range(r.randint(1, 3))], l=""))
    def any(s, vs, d=2):
        k = s.r.random()
        if s.asks and k < .12: return s.p.n("answer")
        if s.files is not None and k < .08: return s.p.var(s.r.choice(HANDLES))
        return s.num(vs, d) if k < .5 else s.text(vs, d) if k < .75 else s.bool(vs, d) if k < .85 or d <= 0 else s.list(vs, d)
    def bool(s, vs, d=1):
        r, p = s.r, s.p
        if d <= 0 or r.random() < .25: return p.n("lit", v=boo(r.random() < .6), l="")
        return p.n(r.choice(["eq", "lt", "gt"]), s.num(vs, d - 1), s.num(vs, d - 1)) if r.random() < .8 else p.n("not", s.bool(vs, d - 1))
    def mark(s, vs):
        a = [s.lit(s.name("m"))] + [s.p.var(v) for v, t in vs if s.r.random() < .4][:2]
        return s.p.say(s.p.n("list", *a) if len(a) > 1 or s.r.random() < .3 else a[0])
    def block(s, vs, d, lo=1, hi=3): return s.p.block(*[s.stmt(vs, d - 1) for _ in range(s.r.randint(lo, hi))])
    def stmt(s, vs, d):
        r, p = s.r, s.p
        k = r.random()
        nv, lv = [v for v, t in vs if t == "n"], [v for v, t in vs if t == "l"]
        if s.files is not None and r.random() < .55: return s.fileop(vs, d)
        if d <= 0 or k < .3: return s.mark(vs)
        if k < .38: return p.n(r.choice(["say", "say", "think"]), s.any(vs))
        if k < .46 and nv: return p.n(r.choice(["assign", "addassign"]), s.num(vs), s=[r.choice(nv)])
        if k < .5 and lv: return p.n("listinsertlast", s.any(vs, 1), p.var(r.choice(lv)))
        if k < .57: return p.n("repeat", s.lit(r.choice([0, 1, 2, 2, 3])), s.block(vs, d))
        if k < .62:
            v = s.name("i")
            return p.n("for", s.lit(1), s.lit(r.choice([1, 2, 3])), s.block(vs + [(v, "n")], d), s=[v])
        if k < .66:
            v = s.name("x")
            return p.n("foreach", s.list(vs), s.block(vs + [(v, "a")], d), s=[v])
        if k < .71: return p.n("if", s.bool(vs, 2), s.block(vs, d)) if r.random() < .5 else p.n("ifelse", s.bool(vs, 2), s.block(vs, d), s.block(vs, d))
        if k < .74: return p.n("warp", s.block(vs, d))
        if k < .78:
            v = s.name("e")
            return p.n("try", s.block(vs, d, 1, 3), p.block(p.say(p.var(v)), s.mark(vs)), s=[v])
        if k < .815: return p.n("throw", s.text(vs)) if r.random() < .5 else p.say(p.n("listget", s.lit(9), s.list(vs)))
        if k < .85 and s.msgs: return p.n("broadcast", s.lit(r.choice(s.msgs)), s=[r.choice(["", "", "wait"])])
        if k < .88 and s.pauses: return p.n("pause")
        if k < .9: return p.n("stop", s=[r.choice(["script", "script", "block", "others", "allbut", "all"])])
        if k < .92 and s.ent: return p.n("if", p.n("lt", p.var("cc"), s.lit(3)), p.block(p.n("addassign", s.lit(1), s=["cc"]), p.n("sclone", p.n("this", l=""), l=None)))
        if k < .93 and s.ent: return p.n("deleteclone")
        if k < .98 and s.fns:
            f = r.choice(s.fns)
            return p.n("scallfn", *[s.num(vs, 1) for _ in f["params"]], s=[f["name"]])
        if s.asks: return p.n("ask", s.text(vs, 1))
        return s.mark(vs)
    def sys(s, op, *a):
        return s.p.n("callsys", s.lit(op), s.p.n("list", *a, l=""))
    def fileop(s, vs, d):
        r, p = s.r, s.p
        h = r.choice(HANDLES)
        H = p.var(h)
        k = r.random()
        W = lambda: p.n("runsys", s.lit("writeLine"), p.n("list", p.var(h), s.any(vs, 1), l=""))
        R = lambda: p.say(s.sys("readLine", p.var(h)))
        C = lambda: p.n("runsys", s.lit("close"), p.n("list", p.var(h), l=""))
        if k < .12: # written, and read back
            f, m = r.choice(s.files[:-3]), r.randint(1, 3)
            op = lambda md: p.set(h, s.sys("open", s.lit(f), s.lit(md)))
            st = [op(r.choice("wa"))] + [W() for _ in range(m)] + [C()] * (r.random() < .9)
            if r.random() < .4: st += [op("a")] + [W() for _ in range(r.randint(1, 2))] + [C()]
            st += [op("r")] + [R() for _ in range(m + r.randint(0, 4))] + [C()] * (r.random() < .5)
            if r.random() < .3: return p.n("warp", p.block(*st))
        elif k < .14: st = [p.set(h, s.sys("open", s.lit("/dev/full"), s.lit(r.choice("wa"))))] + [W()] * r.randint(0, 2) + [p.say(s.sys("close", p.var(h)))] * r.randint(1, 2)   # nothing can be stored there
        elif k < .3:
            f = s.lit(r.choice(s.files)) if r.random() < .93 else s.any(vs, 1)
            md = s.lit(r.choice("rrwwa")) if r.random() < .95 else r.choice([s.lit("rw"), s.lit(""), s.lit("R"), s.any(vs, 1)])
            st = [p.set(h, s.sys("open", f, md))]
            if r.random() < .5: st += [p.n("runsys", s.lit("writeLine"), p.n("list", p.var(h), s.any(vs, 1), l="")) if r.random() < .6 else p.say(s.sys("readLine", p.var(h))) for _ in range(r.randint(1, 3))]
            if r.random() < .4: st.append(p.n("runsys", s.lit("close"), p.n("list", p.var(h), l="")))
        elif k < .55: st = [p.say(s.sys("readLine", H)) for _ in range(r.randint(1, 3))]
        elif k < .8: st = [p.n("runsys", s.lit("writeLine"), p.n("list", H, s.any(vs, 1), l="")) for _ in range(r.randint(1, 2))]
        elif k < .92: st = [p.n("runsys", s.lit("close"), p.n("list", H, l=""))] if r.random() < .7 else [p.say(s.sys("close", H))]
        elif k < .95:
            op = r.choice(["open", "close", "readLine", "writeLine", "delete", "Open"])
            st = [p.say(s.sys(op, *[r.choice([s.any(vs, 1), p.var(h)]) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]))]
        elif k < .97: st = [p.say(p.n("eq", p.var(r.choice(HANDLES)), H))]
        elif k < .985: st = [p.set(r.choice(HANDLES), H)]
        else: st = [p.say(p.n("syserror"))]
        if r.random() < .12 and d > 0: st = [p.n("repeat", s.lit(2), p.block(*st))]
        v = s.name("e")
        if r.random() < .75: return p.n("try", p.block(*st), p.block(p.say(p.var(v))), s=[v])
        return p.n("warp", p.block(*st))
    def project(s):
        r, p = s.r, s.p
        G = [("g%d" % i, "n") for i in range(r.randint(0, 2))] + [("gl", "l")] * (r.random() < .5)
        p.globals = [["cc", txt("0")]] + [[v, txt(str(r.choice([0, 3, "x y"]))) if t == "n" else lst(*[txt(r.choice(TXT)) for _ in range(r.randint(0, 3))])] for v, t in G]
        if s.files is not None: p.globals += [[h, txt("0")] for h in HANDLES]
        s.rfns, s.fns, s.msgs, s.ent = [], [], [], None
        for i in range(r.randint(0, 2)):
            ps = ["p%d" % j for j in range(r.randint(0, 2))]
            vs = G + [(q, "n") for q in ps]
            rep = r.random() < .4
            body = [s.stmt(vs, 2) for _ in range(r.randint(1, 2))] + ([p.n("return", s.num(vs))] if rep else [])
            f = dict(name="f%d" % (i + 1), params=ps, upvars=[], body=p.block(*body), kind="reporter" if rep else "command")
            p.funcs.append(f)
            (s.rfns if rep else s.fns).append(f)
        ents = [("Stage", []), *[(r.choice(["Sprite", "cat", "my sprite", "d\u00f6g"]) + ("" if i == 0 else str(i)), [("f%d_%d" % (i, j), "n") for j in range(r.randint(0, 2))]) for i in range(r.randint(0, 2))]]
        for n, fs in ents: p.ent(n, fields=[[v, txt(str(r.choice([1, 5])))] for v, _ in fs])
        for i in range(r.randint(1, 4)):
            e = r.randrange(len(ents))
            hats = [("flag",)] * 4 + [("msg", "m1"), ("msg", "m2"), ("anymsg",)] + ([("clone",)] if e else []) + [("key", k) for k in s.keys]
            h = ("flag",) if i == 0 else r.choice(hats)
            s.msgs = ["m1", "m2"] if h[0] == "flag" or h[0] == "key" else []     # a script which a message starts sends none, and makes no clones
            s.ent = ents[e][0] if e and h[0] not in ("msg", "anymsg", "clone") or (e and h[0] == "clone" and r.random() < .3) else None
            vs = G + ents[e][1]
            st = [s.mark(vs)]
            if r.random() < .5:
                vs = vs + [("l%d_%d" % (i, j), "n") for j in range(r.randint(1, 2))]
                ls = [v for v, _ in vs if v.startswith("l%d_" % i)]
                st.append(p.n("locals", s=ls))
                st.append(p.set(ls[0], s.num(vs, 1)))
            st += [s.stmt(vs, 3) for _ in range(r.randint(1, 4))]
            if r.random() < .35: st.append(p.n("throw", s.text(vs)) if r.random() < .5 else p.say(p.n("listget", s.lit(9), s.list(vs))))
            p.script(p.ents[e], h, *st)
        return p
HANDLES = ["h1", "h2", "h3"]
def proj(r, name, user="none", disk=None, **k):
    """-> (record for the specification, role xml)"""
    m = Maker(r, files=None if disk is None else [x for x, _ in disk] + ["new.txt", "new.txt", "n2", "none/x", ".", ""], **k)
    p = m.project()
    for i, d in enumerate(p.nodes):
        if d["o"] in ("block", "lit") or (d["o"] == "list" and d["l"] == ""): d["l"] = ""
    xml = Xml(p).role(name)
    for f in p.funcs: f.pop("kind")
    c = dict(role=dict(globals=p.globals, funcs=p.funcs, entities=p.ents), nodes=p.nodes, env=env(maxdepth=1024, user=user, **({} if disk is None else dict(files=disk))))
    return c, xml
def room(name, *roles): return '<room name="%s">%s</room>' % (esc(name), "".join(roles))

# --------------------------------------------------------------------------- sessions
BAD = [("<room", "error", "*"), ("nothing at all", "error", "*"), ("", "error", "*"), ('<room name="r"></room>', "error", "NoRoles")]
def start_case(r):
    projs, files = [], []
    for i in range(r.randint(1, 4)):
        name = r.choice(NAMES)
        c, x = proj(r, "r%d" % i, asks=r.random() < .15)
        c["name"] = name
        projs.append(c); files.append(room(name, x))
    ops, loaded = [], False
    n = r.randint(25, 70)
    while len(ops) < n:
        k = r.random()
        if not loaded or k < .1:
            if r.random() < .6 or not loaded:
                i = r.randrange(len(projs)); loaded = True
                ops.append(dict(o="set", p=i + 1, how="ok", why="", ent="", lab="", xml=files[i]))
            else:
                q = r.random()
                if q < .3:
                    x, how, why = r.choice(BAD)
                    ops.append(dict(o="set", p=0, how=how, why=why, ent="", lab="", xml=x))
                elif q < .5:  # several roles, and none chosen
                    z = [proj(r, "q%d" % j)[1] for j in range(r.randint(2, 3))]
                    ops.append(dict(o="set", p=0, how="error", why="MultipleRoles { count: %d }" % len(z), ent="", lab="", xml=room("many", *z)))
                elif q < .75: # a block which refers to a variable that does not exist
                    v, lab = r.choice(["nope", "x y", "it's"]), "item_%d" % r.randint(1, 9)
                    b = '<script><block s="receiveGo"></block><block collabId="%s" s="bubble"><block collabId="%s" var="%s"/></block></script>' % ("item_77", lab, esc(v))
                    x = room("bad", '<role name="r"><project name="r"><notes></notes><stage name="Stage" width="480" height="360" costume="0" color="255,255,255,1" tempo="60" threadsafe="false"><costumes><list></list></costumes><sounds><list></list></sounds><blocks></blocks><variables></variables><scripts>%s</scripts><sprites></sprites></stage><blocks></blocks><variables></variables></project><media name="r"></media></role>' % b)
                    ops.append(dict(o="set", p=0, how="block", why="CompileError(UndefinedVariable { name: %s })" % json.dumps(v), ent="Stage", lab=lab, xml=x))
                else:  # read, but it cannot be compiled
                    b = '<script><block s="receiveGo"></block><block collabId="item_1" s="nativeRunSyscall"><l>%s</l></block></script>' % "open"
                    x = room(r.choice(NAMES), '<role name="r"><project name="r"><notes></notes><stage name="Stage" width="480" height="360" costume="0" color="255,255,255,1" tempo="60" threadsafe="false"><costumes><list></list></costumes><sounds><list></list></sounds><blocks></blocks><variables></variables><scripts>%s</scripts><sprites></sprites></stage><blocks></blocks><variables></variables></project><media name="r"></media></role>' % b)
                    ops.append(dict(o="set", p=0, how="compile", why="*", ent="", lab="", xml=x))
                if r.random() < .6: ops += [dict(o="toggle"), dict(o="pull")]  # what the project before was doing goes on
        elif k < .35: ops.append(dict(o="input", b="start"))
        elif k < .42: ops.append(dict(o="input", b="stop"))
        elif k < .45: ops.append(dict(o="input", b=r.choice(["Start", "", "pause", "start ", "key"])))
        elif k < .47: ops.append(dict(o="raw", to=r.choice(["/input", "/project"])))
        elif k < .62: ops.append(dict(o="toggle"))
        elif k < .88: ops.append(dict(o="pull"))
        elif k < .96: ops.append(dict(o="get"))
        else: ops.append(dict(o="ext"))
    ops += [dict(o="pull"), dict(o="get"), dict(o="end")]
    for op in ops:
        if op["o"] == "set": op["name"] = re.match(r'<room name="([^"]*)"', op["xml"]) and unesc(re.match(r'<room name="([^"]*)"', op["xml"]).group(1)) or ""
    e = Proj(r)
    e.ent("Stage"); e.ent("Sprite")
    projs.append(dict(role=dict(globals=[], funcs=[], entities=e.ents), nodes=e.nodes, env=env(maxdepth=1024, user="none"), name=""))   # what it starts with, last
    return dict(id=0, mode="start", projs=projs, ops=ops, files=files)
def unesc(s): return s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", '"').replace("&amp;", "&")

# --------------------------------------------------------------------------- a NetsBlox server which knows nothing
class Cloud:
    def __init__(s):
        s.l = socket.create_server(("127.0.0.1", 0), backlog=64)
        s.port = s.l.getsockname()[1]
        threading.Thread(target=s.loop, daemon=True).start()
    def loop(s):
        while True:
            try: c, _ = s.l.accept()
            except OSError: return
            threading.Thread(target=s.serve, args=(c,), daemon=True).start()
    def serve(s, c):
        f = c.makefile("rb")
        try:
            while True:
                l = f.readline()
                if not l: break
                path, hs = l.decode().split(" ")[1], {}
                while True:
                    h = f.readline().decode().strip()
                    if not h: break
                    k, v = h.split(":", 1)
                    hs[k.lower()] = v.strip()
                n = int(hs.get("content-length", 0))
                if n: f.read(n)
                if "sec-websocket-key" in hs:
                    a = base64.b64encode(hashlib.sha1((hs["sec-websocket-key"] + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
                    c.sendall(("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n" % a).encode())
                    while f.read1(65536): pass
                    break
                b = json.dumps({"servicesHosts": [{"url": "http://127.0.0.1:%d/services" % s.port}]} if path == "/configuration" else {"id": "project-1", "roles": {"role-1": {"name": "myRole"}}} if path == "/projects/" else {}).encode()
                c.sendall(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(b) + b)
        except OSError: pass
        finally: c.close()

# --------------------------------------------------------------------------- driving the real tool
class Lost(Exception): pass
WAIT = 40
class Tool:
    def __init__(s, args, tmp, cloud, fds=None, cwd=None):
        s.napf = tempfile.mktemp(dir=tmp, prefix="naps")
        open(s.napf, "wb").write(b"\0" * 8)
        s.nap = os.open(s.napf, os.O_RDONLY)
        e = {k: v for k, v in os.environ.items() if k not in ("RUST_BACKTRACE",)}
        e.update(VN_NAPS=s.napf, TERM="xterm")
        s.errf = open(s.napf + ".err", "wb+")
        if fds is None:
            s.outf = open(s.napf + ".out", "wb+")
            s.p = subprocess.Popen([drv.VN, *args, "--server", "http://127.0.0.1:%d" % cloud.port], stdin=subprocess.DEVNULL, stdout=s.outf, stderr=s.errf, env=e, cwd=cwd or tmp, preexec_fn=drv._lim(6))
        else:
            s.p = subprocess.Popen([drv.VN, *args, "--server", "http://127.0.0.1:%d" % cloud.port], stdin=fds, stdout=fds, stderr=s.errf, env=e, cwd=cwd or tmp, start_new_session=True, preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
    def naps(s): return struct.unpack("<Q", os.pread(s.nap, 8, 0))[0]
    def settle(s, n=4):
        a, end = s.naps(), time.time() + WAIT
        while s.naps() < a + n:
            if s.p.poll() is not None: raise Lost("the tool ended (status %s): %s" % (s.p.returncode, s.err()))
            if time.time() > end: raise Lost("the tool did not come to rest")
            time.sleep(.0008)
    def hold(s):
        if s.p.poll() is not None: raise Lost("the tool ended (status %s): %s" % (s.p.returncode, s.err()))
        s.p.send_signal(signal.SIGSTOP)
        _, st = os.waitpid(s.p.pid, os.WUNTRACED)
        if not os.WIFSTOPPED(st):
            s.p.returncode = os.waitstatus_to_exitcode(st)
            raise Lost("the tool ended (status %s): %s" % (s.p.returncode, s.err()))
    def go(s, sl, n):
        def waiting(): return struct.unpack("i", fcntl.ioctl(sl, termios.FIONREAD, b"\0" * 4))[0]
        end = time.time() + WAIT
        try:
            while waiting() < n and time.time() < end: time.sleep(.0003)
        finally: s.p.send_signal(signal.SIGCONT)
        while waiting() > 0 and time.time() < end and s.p.poll() is None: time.sleep(.0005)
    def err(s):
        s.errf.flush()
        return open(s.errf.name, errors="replace").read()[-600:]
    def out(s): return open(s.outf.name, "rb").read().decode("utf-8", "replace")
    def close(s):
        if s.p.poll() is None: s.p.kill()
        s.p.wait()
        os.close(s.nap); s.errf.close()
        for f in (s.napf, s.napf + ".err", s.napf + ".out"):
            if os.path.exists(f): os.remove(f)
def free_port():
    with socket.socket() as k:
        k.bind(("127.0.0.1", 0))
        return k.getsockname()[1]
def run_start(c, tmp, cloud):
    res = []
    for attempt in range(4):
        port = free_port()
        t = Tool(["start", "--port", str(port)], tmp, cloud)
        try:
            t.settle()
            end = time.time() + WAIT
            while True:
                try: socket.create_connection(("127.0.0.1", port), 5).close(); break
                except OSError:
                    if time.time() > end or "AddrInUse" in t.err(): raise Lost("no server: " + t.err())
                    time.sleep(.005)
            break
        except Lost:
            busy = "AddrInUse" in t.err()
            if not busy or attempt == 3:
                r = dict(id=c["id"], res=[dict(lost=t.err() or "no server")])
                t.close()
                return r
            t.close()
    try:
        h = http.client.HTTPConnection("127.0.0.1", port, timeout=WAIT)
        def call(m, path, body=None):
            h.request(m, path, body)
            z = h.getresponse()
            return z.status, z.read()
        ext = None
        for op in c["ops"]:
            o = op["o"]
            if o == "set": st, b = call("POST", "/project", op["xml"].encode()); rec = dict(st=st)
            elif o == "input": st, b = call("POST", "/input", op["b"].encode()); rec = dict(st=st)
            elif o == "raw": st, b = call("POST", op["to"], b"\xff\xfe<start"); rec = dict(st=st)
            elif o == "toggle": st, b = call("POST", "/toggle-paused", b""); rec = dict(st=st)
            elif o == "pull":
                st, b = call("POST", "/pull", b"")
                z = json.loads(b) if st == 200 else {}
                rec = dict(st=st, running=z.get("running"), output=z.get("output"), errors=z.get("errors"))
            elif o == "get":
                st, b = call("GET", "/project")
                b = b.decode("utf-8", "replace")
                rec = dict(st=st, p=0 if b == EMPTY else c["files"].index(b) + 1 if b in c["files"] else -1)
            elif o == "ext":
                st, b = call("GET", "/extension.js")
                b = b.decode("utf-8", "replace")
                rec = dict(st=st, ok=("http://127.0.0.1:%d" % port) in b and (ext is None or ext == b) and "undefined_placeholder" not in b)
                ext = b
            elif o == "end":
                ls = t.out().split("\n", 2)
                rec = dict(st=200, head=len(ls) == 3 and ls[0].startswith("connect from ") and ls[0].endswith('["http://127.0.0.1:%d/extension.js"]' % port) and ls[1].startswith("public id: native-server@"), text=ls[2] if len(ls) == 3 else "")
            res.append(rec)
            if o in ("set", "input", "raw", "toggle"): t.settle()
    except (Lost, OSError, ValueError, http.client.HTTPException) as ex:
        if not isinstance(ex, Lost): time.sleep(.3)
        res.append(dict(lost="%s %s: %s" % (type(ex).__name__, ex, t.err())))
    finally: t.close()
    return dict(id=c["id"], res=res)
MARK = b"\x1b[?59999z"
class Screen:
    """what the tool wrote to its terminal: the text it printed, and the line at the bottom it keeps redrawing"""
    def __init__(s, m, sl): s.m, s.sl, s.buf, s.line, s.row = m, sl, b"", "", 0
    def read(s):
        os.write(s.sl, MARK)
        end = time.time() + WAIT
        while MARK not in s.buf:
            if select.select([s.m], [], [], 1)[0]: s.buf += os.read(s.m, 65536)
            elif time.time() > end: raise Lost("the terminal is stuck")
        b, s.buf = s.buf.split(MARK, 1)
        t = b.decode("utf-8", "replace")
        out = ""
        for part in re.split("(\x1b7.*?\x1b8)", t, flags=re.S):
            if part.startswith("\x1b7"):
                g = re.findall("\x1b\\[(\\d+);(\\d+)H", part)
                s.row = int(g[0][0]) if len(g) == 1 and g[0][1] == "1" else -1
                s.line = re.sub("\x1b(\\[[0-9;?]*[A-Za-z]|[78])", "", part)
            else: out += re.sub("\x1b\\[[0-9;?]*[A-Za-z]", "", part)
        return out
KEYB = {"up arrow": b"\x1b[A", "down arrow": b"\x1b[B", "right arrow": b"\x1b[C", "left arrow": b"\x1b[D", "enter": b"\r", "backspace": b"\x7f", "esc": b"\x1b", "quit": b"\x03", "tab": b"\t", "delete": b"\x1b[3~"}
def run_run(c, tmp, cloud):
    d = tempfile.mkdtemp(dir=tmp)
    op, res = c["ops"][0], []
    f = d + "/project.xml"
    if op["file"]: open(f, "w").write(c["xml"])
    if "disk" in c:
        os.mkdir(d + "/w")
        for n, s in c["disk"]: open(d + "/w/" + n, "wb").write(s.encode().replace(BADCH, b"\xff"))
    args = (["--fs"] if "disk" in c else []) + ["run", f] + (["--role", op["role"][0]] if op["role"] else [])
    fds, t, m, sl = None, None, None, None
    try:
        if c["mode"] == "tty":
            m, sl = pty.openpty()
            tty.setraw(sl)
            fcntl.ioctl(sl, termios.TIOCSWINSZ, struct.pack("HHHH", c["rows"], 80, 0, 0))
            fds = sl
        t = Tool(args, d, cloud, fds, d + "/w" if "disk" in c else d)
        scr = Screen(m, sl) if m is not None else None
        def status():
            try: return t.p.wait(WAIT)
            except subprocess.TimeoutExpired: raise Lost("the tool did not end")
        def rest():
            try: t.settle()
            except Lost:
                if t.p.poll() is None: raise
                return t.p.returncode
            return -1
        st = rest()
        if st == -1 or (op["ends"] == "load" and st == 0):  # it runs, or loading failed late
            out = scr.read() if scr else t.out()
            nl = "\r\n" if scr else "\n"
            head, _, tail = out.partition(nl)
            res.append(dict(st=st, err="", head=head.startswith("public id: " if scr else ">>> public id: ") and "@_vm-" in head and head.endswith("#vm"), proj=head.split(": ", 1)[-1].split("@")[0], out=tail, line=scr.line if scr else "", row=scr.row if scr else 0))
        else: res.append(dict(st=st, err=t.err(), head=True, proj="", out=(scr.read() if scr else t.out()), line=""))
        def disk(): return {"files": [[n, open(d + "/w/" + n, "rb").read().replace(b"\xff", BADCH).decode("utf-8", "replace")] for n in sorted(os.listdir(d + "/w"))]} if "disk" in c else {}
        for op in c["ops"][1:]:
            if st != -1: break
            if op["o"] == "done":
                t.p.kill(); t.p.wait()
                res.append(dict(st=0, err="", out="", line="", **disk()))
                break
            b = b"" if op["o"] == "resize" else KEYB[op["key"]] if op["o"] == "press" else op["ch"].encode()
            t.hold()              # terminals take their time: what is typed must have arrived before the tool goes on
            if op["o"] == "resize": fcntl.ioctl(sl, termios.TIOCSWINSZ, struct.pack("HHHH", op["rows"], 80, 0, 0))
            else: os.write(m, b)
            t.go(sl, len(b))
            if op["o"] == "press" and op["key"] == "quit":
                st = status()
                res.append(dict(st=st, err=t.err(), out=scr.read(), line="", **disk()))
            else:
                st = rest()
                out, end = scr.read(), time.time() + 3
                while st == -1 and op["o"] == "resize" and scr.row != max(1, op["rows"]) and time.time() < end:
                    st = rest()       # the signal takes its time
                    out += scr.read()
                res.append(dict(st=st, err=t.err() if st != -1 else "", out=out, line=scr.line, row=scr.row))
    except (Lost, OSError) as ex: res.append(dict(lost="%s %s: %s" % (type(ex).__name__, ex, t.err() if t else "")))
    finally:
        if t: t.close()
        for x in (m, sl):
            if x is not None: os.close(x)
        shutil.rmtree(d, ignore_errors=True)
    return dict(id=c["id"], res=res)
BADCH = "\u00a4".encode()
HATS = ["a", "b", "any key", "space", "up arrow", "left arrow", "5", "down arrow", "right arrow"]
def run_case(r):
    mode = r.choice(["pipe", "tty", "tty", "tty"])
    k = r.random()
    nr = 1 if k < .7 else r.randint(2, 3)
    names = r.sample(["myRole", "role two", "r3", "it's"], nr)
    made = [proj(r, n, user="asks" if mode == "tty" else "none", asks=mode == "tty" or r.random() < .15, keys=HATS if mode == "tty" else []) for n in names]
    for (c, _), n in zip(made, names): c["name"] = n
    title = r.choice(NAMES)
    xml = room(title, *[x for _, x in made])
    role = [] if nr == 1 and r.random() < .7 else [r.choice(names)] if r.random() < .75 else [] if r.random() < .5 else [r.choice(["none such", "", "my", "role", "MYROLE", "myRole ", "r", "R3"])]
    file, bad = True, False
    k = r.random()
    if k < .03: file = False
    elif k < .07: xml, bad = r.choice(BAD[:3])[0], True
    elif k < .11:
        b = '<script><block s="receiveGo"></block><block collabId="item_1" s="nativeRunSyscall"><l>open</l></block></script>'
        xml = xml.replace("</scripts>", b + "</scripts>")
        bad = "compile"
    first = dict(o="run", role=role, file=file, bad="read" if bad is True else bad or "", title=title, ends="load" if bad == "compile" else "")
    ops = [first]
    first_rows = rows = r.choice([24] * 9 + [1, 0])
    if mode == "tty":
        for _ in range(r.randint(10, 45)):
            k = r.random()
            if k < .5: ops.append(dict(o="type", ch=r.choice("aaabbA5 xyZ7?!\"") if r.random() < .93 else r.choice("\u00e9\u03bb\U0001F600\u00c9")))
            elif k < .68: ops.append(dict(o="press", key="enter"))
            elif k < .76: ops.append(dict(o="press", key="backspace"))
            elif k < .84: ops.append(dict(o="press", key="esc"))
            elif k < .98: ops.append(dict(o="press", key=r.choice(["up arrow", "left arrow", "down arrow", "right arrow"])))
            else: ops.append(dict(o="press", key=r.choice(["tab", "delete"])))
            if r.random() < .03:
                rows = r.choice([x for x in (24, 30, 10, 50, 2, 1, 0, 300) if x != rows])
                ops.append(dict(o="resize", rows=rows))
        ops.append(dict(o="press", key="quit"))
    return dict(id=0, mode=mode, projs=[c for c, _ in made], ops=ops, xml=xml, rows=first_rows)
FNAMES = ["a.txt", "b c.txt", "d\u00f6", "7"]
def disk(r): return [[n, "".join(r.choice(["one", "two words", "", "x,y", "\u00e9\u03bb", "3", "tab\there", "\u00a4"] if r.random() < .9 else ["a long line " * 12]) + r.choice(["\n", "\n", "\n", "\r\n"]) for _ in range(r.randint(0, 4))) + r.choice(["", "", "end", "\u00a4"])] for n in r.sample(FNAMES, r.randint(1, 3))]
def file_case(r):
    d = disk(r)
    mode = r.choice(["pipe", "tty", "tty"])
    c, x = proj(r, "r", user="asks" if mode == "tty" else "none", disk=d, pauses=False, keys=["a", "b"] if mode == "tty" else [])
    c["name"] = "r"
    ops = [dict(o="run", role=[], file=True, bad="", title="p", ends="")]
    if mode == "tty": ops += [dict(o="type", ch=r.choice("ab")) for _ in range(r.randint(2, 8))] + [dict(o="press", key="quit")]
    else: ops.append(dict(o="done"))
    return dict(id=0, mode=mode, projs=[c], ops=ops, xml=room("p", x), rows=24, disk=d)
EMPTY = open("/repo/src/assets/empty-proj.xml").read() if os.path.exists("/repo/src/assets/empty-proj.xml") else ""

def run_all(cases, tmp, cloud=None, threads=8):
    cloud = cloud or Cloud()
    for i, c in enumerate(cases): c["id"] = i + 1
    out, q, lost = {}, queue.Queue(), []
    for c in cases: q.put(c)
    def one(c): return (run_start if c["mode"] == "start" else run_run)(c, tmp, cloud)
    def work():
        global WAIT
        while True:
            try: c = q.get_nowait()
            except queue.Empty: return
            if len(lost) >= 12: continue      # enough to report
            r = one(c)
            if "lost" in r["res"][-1]:        # once more: it must happen again
                r = one(c)
                if "lost" in r["res"][-1]:
                    lost.append(c["id"])
                    if len(lost) >= 2: WAIT = 5
            # a session whose program prints without end is followed up to there
            k = next((k for k, x in enumerate(r["res"]) if len(str(x)) > 200000), None)
            if k is not None:
                r["res"], c["ops"], r["cut"] = r["res"][:k], c["ops"][:k], 1
            out[c["id"]] = r
    ts = [threading.Thread(target=work) for _ in range(threads)]
    for t in ts: t.start()
    for t in ts: t.join()
    return [out[c["id"]] for c in cases if c["id"] in out]

def slim(c): return {**{k: v for k, v in c.items() if k not in ("files", "xml")}, "ops": [{k: v for k, v in o.items() if k != "xml"} for o in c["ops"]]}
_cloud = []
def sessions(acc, cases, label):
    """records the sessions on the real tool, and checks the records with TLC"""
    if not _cloud: _cloud.append(Cloud())
    rs = run_all(cases, acc.tmp, _cloud[0])
    res = {r["id"]: (r, json.dumps(r, ensure_ascii=False)) for r in rs}
    ver, st, errs = drv.validate([slim(c) for c in cases], res, acc.tmp, timeout=max(60, min(600, 860 - (time.time() - acc.t0))), module="Server")
    acc.states += st["distinct"]; acc.transitions += st["generated"]
    for e in errs: acc.notes.append(e)
    for c in cases:
        if c["id"] not in res: continue
        r = res[c["id"]][0]
        acc.hist.update("%s:%s" % (c["mode"], o["o"] + (":" + o["key"] if o["o"] == "press" else ":" + o["how"] if o["o"] == "set" else "")) for o in c["ops"])
        v = ver.get(c["id"])
        if v is None: acc.undecided += 1; continue
        if v[0] == "ok":
            acc.valid += 1
            if len(acc.samples) < 3 and not any(x.get("mode") == c["mode"] for x in acc.samples): acc.samples.append(dict(mode=c["mode"], session=json.dumps([[slim(c)["ops"][i], x] for i, x in enumerate(r["res"][:14])], ensure_ascii=False)[:1500]))
        elif v[0] == "taint": acc.taint += 1; acc.taints[v[2]] += 1
        else: acc.violations.append(dict(kind="sess", where="%s session, operation %d" % (c["mode"], v[1]), turn=v[1], why=v[2], case=c, recorded=r["res"][:v[1] + 1]))
    cut = sum(r.pop("cut", 0) for r in rs)
    acc.extra[label + "_sessions_cut_short"] = acc.extra.get(label + "_sessions_cut_short", 0) + cut
    if cut > 4 + len(rs) // 20: acc.undecided += cut
    acc.extra[label + "_sessions"] = acc.extra.get(label + "_sessions", 0) + len(rs)
    acc.extra[label + "_operations"] = acc.extra.get(label + "_operations", 0) + sum(len(r["res"]) for r in rs)
