"""Families of cases, one per property. Each yields cases for ever (seeded)."""
import random, itertools
from gen import *

BASIC = {"sub", "add", "mul", "listlen", "gt", "lt", "eq", "strcat", "list", "listcons", "ifexpr"}
def setup(g, nsp=2, nglob=3, fields=True):
    p, r = g.p, g.r
    vars = {}
    for i in range(nglob):
        t = r.choice(["num", "num", "list", "text"]) if i else "num"
        p.glob("g%d" % i, g.litval(t))
        vars["g%d" % i] = t
    ents = []
    names = ["s%d" % i for i in range(1, nsp + 1)]
    r.shuffle(names)
    for n in names:
        e = p.ent(n)
        ev = {}
        if fields:
            for f in r.sample(["f0", "f1", "g0"], r.randint(0, 2)):
                t = "num" if f != "f1" else r.choice(["num", "list"])
                e["fields"].append([f, g.litval(t)])
                ev[f] = t
        ents.append((e, ev))
    g.sprites = names
    return vars, ents
def scope(vars, e, ev, g, **k):
    v = dict(vars)
    v.update(ev)
    own = [f for f in getattr(g, "efns", {}).get(e["name"], [])]
    return Scope(v, e, own + [f for f in g.gfns if f[0] not in [x[0] for x in own]], **k)
def functions(g, vars, ents, n=2, depth=2, rec=True, upvars=True, own=True):
    """global and per-sprite custom blocks; later ones may call earlier ones"""
    p, r = g.p, g.r
    g.gfns, g.efns = [], {}
    where = [(r.choice(ents) if own and r.random() < .4 else (None, {})) for _ in range(n)]
    for i, (e, ev) in enumerate(sorted(where, key=lambda x: x[0] is not None)):
        fname = "fn%d" % (r.randint(0, n - 1) if r.random() < .5 else i)
        if fname in [f[0] for f in (g.efns.get(e["name"], []) if e else g.gfns)]: fname = "fn_%d" % i
        over = [f for f in g.gfns if f[0] == fname]  # a sprite's own block of the same name, so with the same parameters
        params = [(r.choice(["x", "y", "n", "g0"]) if r.random() < .7 else g.name("p"), "num") for _ in range(r.randint(0, 2))]
        params = list(dict(params).items())
        ups = [q for q, _ in params if r.random() < .2] if upvars else []
        ret = r.choice(["num", "num", "text", "list"])
        if over: params, ret, ups = list(over[0][1]), over[0][2], list(over[0][3])
        v = dict(vars)
        v.update(ev)
        v.update(dict(params))
        sc = Scope(v, e, [f for f in (g.efns.get(e["name"], []) if e else []) + g.gfns if not e or f[0] != fname], ret=ret, warp=True)
        st = []
        if rec and r.random() < .3 and not ups and not over:
            params = [("n", "num")] + [q for q in params if q[0] != "n"]
            sc.vars["n"] = "num"
            again = p.n("callfn", *[p.n("sub", p.var("n"), p.lit(1)) if q == "n" else g.expr(t, 1, sc) for q, t in params], s=[fname])
            st = [p.n("if", p.n("lt", p.var("n"), p.lit(r.choice([1, 1, 1, -3]))), p.block(p.n("return", g.expr(ret, 1, sc))))]
            st += [g.stmt(depth - 1, sc) for _ in range(r.randint(0, 2))]
            st.append(p.n("return", r.choice([again, p.n("strcat", p.n("list", p.var("n"), again))])) if r.random() < .8 else p.n("say", again))
        else:
            st = [g.stmt(depth, sc) for _ in range(r.randint(1, 3))]
            if r.random() < .75: st.append(p.n("return", g.expr(ret, 2, sc)))
        body = p.block(*st)
        p.func(fname, [q for q, _ in params], body, ups, ent=e)
        f = (fname, params, ret, ups)
        (g.efns.setdefault(e["name"], []) if e else g.gfns).append(f)
def hostlist(r, errs=True):
    def v(d=0):
        return r.choice([lambda: py(r.choice(NUMS)), lambda: txt(r.choice(TEXTS)), lambda: boo(r.random() < .5), lambda: lst(*[v(1) for _ in range(r.randint(0, 2))]) if d < 2 else num(1), lambda: img("hi"), lambda: aud("ha")])()
    return [dict(p=r.choice([0, 0, 1, 2, 3]), r="ok", v=v()) if not errs or r.random() < .7 else dict(p=r.choice([0, 1, 2]), r="err", v=txt(r.choice(["bad", "oops \"q\"", ""]))) if r.random() < .8 else dict(p=0, r="ns", v=num(0)) for _ in range(r.randint(0, 5))]
def replylist(r):
    return [dict(p=r.choice([0, 1, 2]), r="none", v=num(0)) if r.random() < .3 else dict(p=r.choice([0, 0, 1, 3]), r="val", v=py(r.choice([1, "t", (1, 1), [1, "b"], True]))) for _ in range(r.randint(0, 3))]
def mkturns(r, n, inputs, dt=(0, 0, 1, 5, 16, 30), first=None, prob=.12, msgs=None, mprob=0, sn=.15, same=.2):
    t, out = 0, []
    for i in range(n):
        inp, m = [], None
        if i == 0: inp = first if first is not None else [start()]
        elif inputs and r.random() < prob:
            inp = [r.choice(inputs)()]
            if r.random() < same: inp.append(r.choice(inputs)())
        if msgs and r.random() < mprob: m = r.choice(msgs)()
        out.append(turn(t, inp, m, r.random() < sn or i == n - 1))
        t += r.choice(dt)
    return out
def anyscripts(g, vars, ents, hats, n, d=3, ns=(1, 4), **k):
    for _ in range(n):
        e, ev = g.r.choice(ents)
        h = g.r.choice(hats)
        sc = scope(vars, e, ev, g, **k)
        for f in h[2:] if h[0] in ("net", "ev") else []: sc.vars[f] = "num"
        b = [g.stmt(d, sc) for _ in range(g.r.randint(*ns))]
        g.p.script(e, h, *b)

# ---------------------------------------------------------------- scheduling
def C01(r):
    """concurrent scripts, loops, warps, waits, custom blocks and higher-order blocks"""
    g = Gen(r, dict(mark=6, tag=4, assign=4, addassign=3, repeat=4, until=2, foreach=2, warp=4, forever=1, **{"for": 2}, sleep=2, call=2, saycall=1, hof=2, waituntil=1, ifelse=1, sys=1, locals=1, err=.4, watch=.3, pause=r.choice([0, .7]), fork=r.choice([0, 2]), **{"return": 1.5, "if": 1, "try": 1}), BASIC, mism=0)
    vars, ents = setup(g, r.randint(1, 2))
    functions(g, vars, ents, r.randint(0, 2), r.randint(2, 3), rec=False, upvars=False)
    for e, ev in ents: pass
    anyscripts(g, vars, ents, [("flag",), ("flag",), ("key", "a")], r.randint(2, 4))
    # waiting for a change made by another script
    if r.random() < .3:
        e, ev = r.choice(ents)
        g.p.script(e, ("flag",), g.p.n("waituntil", g.p.n("gt", g.p.var("g0"), g.p.lit(3))), g.p.says("woke"))
    return case(g.p, env(turns=mkturns(r, 45, [lambda: key("a"), start], prob=.04), host=hostlist(r, False)))
def C02(r):
    """start / stop / keys / custom events with queue limits and interruption, for clones and launched scripts too"""
    g = Gen(r, dict(mark=6, tag=2, assign=3, addassign=2, repeat=5, sleep=2, forever=.5, err=.3, sys=.7, warp=.5, fork=r.choice([0, 0, 2]), **{"if": 1}), BASIC, mism=0)
    vars, ents = setup(g, r.randint(1, 3), fields=r.random() < .5)
    g.gfns, g.efns = [], {}
    hats = [("flag",), ("key", r.choice("aA")), ("key", "b"), ("key", "any key"), ("key", r.choice(["enter", "space", "up arrow", "down arrow", "left arrow", "right arrow"])), ("ev", "E", "x", "y"), ("ev", r.choice("Ee"), "y"), ("ev", "F"), ("ev", "E", "x", "x")]
    if r.random() < .5: hats = r.sample(hats, r.randint(1, 3))
    for _ in range(r.randint(2, 6)):
        e, ev = r.choice(ents)
        h = r.choice(hats)
        sc = scope(vars, e, ev, g)
        b = [g.p.n("say", g.p.n("list", g.p.lit(g.name("in")), *[g.p.var(f) for f in h[2:]]))] if h[0] == "ev" else [g.p.says(g.name("k"))]
        b += [g.stmt(2, sc) for _ in range(r.randint(0, 3))]
        b.append(g.p.says(g.name("end")))
        g.p.script(e, h, *b)
    if r.random() < .4:  # clones answer the inputs as well
        p = g.p
        p.glob("cc", 0)
        for e, ev in r.sample(ents, r.randint(1, len(ents))):
            b = p.n("if", p.n("lt", p.var("cc"), p.lit(3)), p.block(p.n("addassign", p.lit(1), s=["cc"]), p.n("sclone", p.n("this"))))
            p.script(e, r.choice([("flag",), ("flag",), ("key", "c")]), b, *([b] if r.random() < .4 else []))
    def event():
        a = [(k, r.choice([1, "v", [1, [2]], True, (1, 1)])) for k in ("x", "y", "z") if r.random() < .7]
        return evt(r.choice(["E", "E", "E", "E", "F", "F", "e", "f", "none"]), a, r.random() < .3, r.choice([0, 1, 1, 2, 5, -1]))
    def keyin():
        k = key(r.choice("aaabbbccc") if r.random() < .8 else r.choice(["enter", "space", "up arrow", "down arrow", "left arrow", "right arrow", "1"]))
        if r.random() < .1: k["k"] = "keyup"
        return k
    ins = [start, stop, keyin, event, event, event]
    n = r.randint(12, 40)
    return case(g.p, env(turns=mkturns(r, n, ins, first=r.choice([None, [], [event(), event(), event()], [stop(), start(), start()]]), prob=r.choice([.2, .5, .8]), same=.5), host=hostlist(r, False)))
def C03(r):
    """broadcasts"""
    g = Gen(r, dict(mark=6, tag=1, assign=2, repeat=3, sleep=1.5, broadcast=6, err=.3, stop=.5, warp=.6, clone=.3, sys=.5, delclone=.2, forever=.3, **{"if": 1, "try": .5}), BASIC, mism=0)
    g.stopmodes = dict(script=3, others=1, block=1, allbut=.3, all=.1)
    g.extra = {"any": [lambda g, s, d: g.p.n("message")], "text": [lambda g, s, d: g.p.n("message")]}
    vars, ents = setup(g, r.choice([1, 2, 2, 3, 4]), fields=False)
    if r.random() < .3: g.msgs = ["m1", "M1", "m2", "m 1"]
    g.gfns, g.efns = [], {}
    for i in range(r.randint(1, 2)): anyscripts(g, vars, ents, [("flag",)], 1, 2, (1, 4))
    for i in range(r.randint(1, 4)):
        e, ev = r.choice(ents)
        sc = scope(vars, e, ev, g)
        b = [g.p.n("say", g.p.n("list", g.p.lit(g.name("rcv")), g.p.n("message")))]
        b += [g.stmt(2, sc) for _ in range(r.randint(0, 3))]
        if r.random() < .3:  # the message is there for everything the script calls
            x = g.p.n("message")
            for _ in range(r.randint(1, 3)): x = g.p.n("callclo", g.p.n("closure", g.p.block(g.p.n("return", x)), s=[], v=num(0)))
            b.append(g.p.say(x))
        if r.random() < .8: b.append(g.p.say(g.p.n("list", g.p.lit(g.name("end")), g.p.n("message"))))
        g.p.script(e, r.choice([("msg", "m1"), ("msg", "m1"), ("msg", g.msgs[1]), ("msg", g.msgs[2]), ("anymsg",)]), *b)
    if r.random() < .3: anyscripts(g, vars, ents, [("clone",), ("key", "a")], 1, 1, (1, 2))
    return case(g.p, env(turns=mkturns(r, 40, [start, lambda: key("a"), stop], prob=.05), host=hostlist(r, False)))
def queues(r):
    """scripts with contexts waiting in their queues, and scripts which end, stop others or delete their clone meanwhile; then quiet turns"""
    p = Proj(r)
    p.glob("k", 0)
    es = [p.ent("s%d" % i) for i in range(1, r.randint(2, 4))]
    names = [e["name"] for e in es]
    busy = lambda: [p.n("repeat", p.lit(r.randint(1, 4)), p.block(p.n("addassign", p.lit(1), s=["k"]))) if r.random() < .7 else p.n("sleep", p.lit(r.choice([0, (1, 5), (1, 4)])))] if r.random() < .8 else []
    def end(cl):
        k = r.random()
        if cl: return [p.n("stop", s=[r.choice(["others", "allbut", "allbut"])])] * (k < .6) + [p.n("deleteclone")] * (r.random() < .7)
        if k < .55: return []
        if k < .65: return [p.n("throw", p.lit("e"))]
        return [p.n("stop", s=[r.choice(["script", "script", "others", "allbut", "all"])])]
    seq = lambda tag, x, cl=False: [p.say(p.n("list", p.lit(tag), *x)), *busy(), *end(cl), *([p.says(tag + ".")] if r.random() < .7 else [])]
    for i in range(r.randint(2, 4)):
        h = r.choice([("net", "A", "x"), ("net", "B", "x"), ("net", "A", "x"), ("ev", "E", "x"), ("ev", "F", "x"), ("key", "a")])
        p.script(r.choice(es), h, *seq("q%d" % i, [p.var("x")] if len(h) > 2 else []))
    if r.random() < .7:
        for i in range(r.randint(1, 2)): p.script(r.choice(es), ("clone",), *seq("c%d" % i, [], True))
        p.script(r.choice(es), ("flag",), *busy(), *[p.n("sclone", p.n("entity", s=[r.choice(names)])) for _ in range(r.randint(1, 2))], *(end(False) if r.random() < .3 else []))
    if r.random() < .4: p.script(r.choice(es), r.choice([("msg", "m"), ("anymsg",)]), *seq("m", []))
    if r.random() < .4: p.script(r.choice(es), ("flag",), *busy(), p.n("broadcast", p.lit("m"), s=[r.choice(["", "wait"])]), *busy(), *end(False))
    hats = {tuple(s["hat"][:2]) for e in es for s in e["scripts"]}
    k, loud, dens = [0], r.randint(3, 16), r.choice([.3, .5, .8])
    t, turns, n = 0, [], r.randint(28, 40)
    for i in range(n):
        inp, m = [start()] if i == 0 else [], None
        if (i < loud and r.random() < dens) or r.random() < .02:
            for _ in range(r.choice([1, 1, 1, 2])):
                k[0] += 1
                o = r.choice([h for h in hats if h[0] in ("net", "ev", "key")])
                if o[0] == "net": m = msg(o[1], [("x", k[0])], r.choice(["", "src/%d" % k[0]]))
                elif o[0] == "ev": inp.append(evt(o[1], [("x", k[0])], r.random() < .15, r.choice([0, 1, 2, 5, 5, -1])))
                else: inp.append(key(o[1]))
        turns.append(turn(t, inp, m, r.random() < .15 or i == n - 1))
        t += r.choice([0, 0, 1, 5, 16])
    return case(p, env(turns=turns, maxdepth=12))
def C04(r):
    """network messages and replies"""
    if r.random() < .15: return queues(r)
    g = Gen(r, dict(mark=4, tag=1, assign=2, repeat=2, sleep=1, netsend=3, netreply=2, reply=4, err=.3, warp=.4, say=1, call=.7, fork=.5, stop=.3, **{"if": 1, "try": .5}), BASIC | {"range", "copylist"}, mism=.02)
    g.stopmodes = dict(script=3, others=1, block=1)
    vars, ents = setup(g, r.randint(1, 2), fields=r.random() < .4)
    functions(g, vars, ents, r.randint(0, 1), 1, rec=False, upvars=False)
    for _ in range(r.randint(1, 4)):
        e, ev = r.choice(ents)
        h = r.choice([("net", "A", "x", "y"), ("net", "A", "y"), ("net", "B"), ("net", r.choice("Bb"), "v"), ("flag",), ("net", "A", "x", "x")])
        sc = scope(vars, e, ev, g)
        for f in h[2:]: sc.vars[f] = "num"
        b = [g.p.n("say", g.p.n("list", g.p.lit(g.name("in")), *[g.p.var(f) for f in h[2:]]))]
        b += [g.stmt(2, sc) for _ in range(r.randint(0, 4))]
        if r.random() < .2:  # an answer which cannot be sent is no answer
            bad = r.choice([lambda: g.p.n("entity", s=[e["name"]]), lambda: g.p.n("closure", g.p.block(), s=[], v=num(0)), lambda: g.p.n("list", g.p.lit(1), g.p.n("this"))])
            b += [g.p.tryy([g.p.n("reply", bad())]), g.p.n("reply", g.p.lit("second"))]
        b.append(g.p.says(g.name("end")))
        g.p.script(e, h, *b)
    if r.random() < .3:  # clones receive messages as well
        p = g.p
        p.glob("cc", 0)
        e, ev = r.choice(ents)
        p.script(e, ("flag",), *[p.n("if", p.n("lt", p.var("cc"), p.lit(3)), p.block(p.n("addassign", p.lit(1), s=["cc"]), p.n("sclone", p.n("this")))) for _ in range(r.randint(1, 2))])
    k = [0]
    def mg():
        k[0] += 1
        return msg(r.choice(["A", "A", "A", "B", "B", "C", "a", "b"]), [(f, r.choice([k[0], k[0], "t%d" % k[0], [k[0]], True])) for f in ("x", "y", "v") if r.random() < .75], r.choice(["", "src/%d" % k[0], "src/%d" % k[0]]))
    return case(g.p, env(turns=mkturns(r, 40, [start, stop], prob=.04, msgs=[mg], mprob=r.choice([.1, .3, .6])), replies=replylist(r)))
def C05(r):
    """stop blocks"""
    if r.random() < .12: return queues(r)
    g = Gen(r, dict(mark=6, assign=1, repeat=3, sleep=1, broadcast=2, stop=5, call=3, saycall=1, runclo=2, tell=r.choice([1, 4]), warp=1, fork=.7, forever=.5, clone=.4, **{"if": 2, "try": 1, "for": .5}), BASIC, mism=0)
    if r.random() < .3: g.stopmodes = dict(script=1, others=6, block=1, allbut=1, all=.3)
    vars, ents = setup(g, r.choice([1, 2, 2, 3]), fields=False)
    functions(g, vars, ents, r.randint(1, 2), 2, rec=False, upvars=False)
    anyscripts(g, vars, ents, [("flag",), ("flag",), ("msg", "m1"), ("msg", "m2"), ("key", "a"), ("ev", "E", "x"), ("clone",)], r.randint(2, 5), 2)
    return case(g.p, env(turns=mkturns(r, 40, [start, lambda: key("a"), lambda: evt("E", [("x", r.randint(1, 9))], False, r.choice([0, 2, -1])), lambda: evt("E", [("x", r.randint(1, 9))], r.random() < .2, 3)], prob=.2, same=.5)))
def C06(r):
    """clones"""
    if r.random() < .15: return queues(r)
    g = Gen(r, dict(mark=3, tag=3, assign=4, addassign=4, repeat=2, sleep=1, broadcast=2, clone=4, delclone=1.5, tell=2, lins=1, warp=.6, stop=.3, err=.1, call=1, **{"if": 1}), BASIC | {"copylist"}, mism=0)
    g.stopmodes = dict(script=3, others=2, block=1)
    vars, ents = setup(g, r.randint(1, 2))
    for e, ev in ents:
        if "f0" not in ev and r.random() < .8: e["fields"].append(["f0", py(r.choice([1, 2, 10]))]); ev["f0"] = "num"
    functions(g, vars, ents, r.randint(0, 1), 1, rec=False, upvars=False)
    if r.random() < .4:
        for e, ev in ents: e["costumes"] = [["k%d" % i, img("i%d" % i)] for i in range(1, 4)]; e["active"] = r.randint(0, 3)
        g.s_tag = lambda d, sc: g.p.n("say", g.p.n("costumenumber")) if r.random() < .5 else g.p.n("nextcostume") if r.random() < .4 else g.p.n("setcostume", g.p.lit(r.choice(["k1", "k2", "k3", ""])))
    g.p.glob("c", 0)
    def newclone(g, s, d): return g.p.n("clone", g.p.n("this") if r.random() < .5 else g.p.n("entity", s=[r.choice(g.sprites)]))
    g.extra = {"any": [newclone, lambda g, s, d: g.p.n("this")]}
    def use(d, sc):
        p = g.p
        return p.block(p.set("c", newclone(g, sc, d)), p.n("scallcloin", p.var("c"), g.closure(sc, [], g.body(1, sc.sub(loop=sc.loop + 1)), [])))
    for e, ev in ents:
        sc = scope(vars, e, ev, g)
        b = []
        for _ in range(r.randint(1, 4)):
            x = g.stmt(2, sc)
            b.append(x)
            if r.random() < .3: b += g.p.nodes[use(1, sc) - 1]["a"]
        g.p.script(e, ("flag",), *b)
    for _ in range(r.randint(1, 4)):
        anyscripts(g, vars, ents, [("clone",), ("clone",), ("clone",), ("msg", "m1"), ("anymsg",), ("key", "a"), ("ev", "E", "x"), ("net", "A", "x")], 1, 2)
    for e, ev in ents:  # guard: bounded clone chains
        for s in e["scripts"]:
            if s["hat"][0] in ("clone", "msg", "anymsg"):
                b = g.p.nodes[s["body"] - 1]
                b["a"] = [g.p.n("addassign", g.p.lit(1), s=["cc"]), g.p.n("if", g.p.n("gt", g.p.var("cc"), g.p.lit(9)), g.p.block(g.p.n("stop", s=["script"])))] + b["a"]
    g.p.glob("cc", 0)
    return case(g.p, env(turns=mkturns(r, 35, [lambda: key("a"), start, lambda: evt("E", [("x", 3)], r.random() < .3, 2)], prob=.1, msgs=[lambda: msg("A", [("x", 4)])], mprob=.06)))
def Q(r): return queues(r)
# ---------------------------------------------------------------- language
def LANG(r, st, exprs=None, nf=3, rec=True, nscr=2, extra=None, mism=.02, depth=3, labels=0, turns=30, **k):
    g = Gen(r, st, exprs, labels=labels, mism=mism)
    if extra: g.extra = extra
    vars, ents = setup(g, r.randint(1, 2))
    functions(g, vars, ents, r.randint(0, nf), 2, rec=rec)
    anyscripts(g, vars, ents, [("flag",)], r.randint(1, nscr), depth, (2, 6))
    return g, case(g.p, env(turns=mkturns(r, turns, [], sn=.3), maxdepth=k.pop("maxdepth", 30), **k))
def C07(r):
    """variable scoping"""
    st = dict(assign=6, addassign=4, say=3, locals=4, call=4, saycall=3, repeat=1, foreach=2, runclo=1, tell=2, warp=1, watch=1, **{"for": 2, "try": 1.5, "if": 1, "ifelse": .5})
    g, c = LANG(r, st, BASIC, nf=4)
    p = g.p
    if r.random() < .4:  # undefined names
        e = p.ents[0]
        p.script(e, ("flag",), p.n("try", p.block(p.n("say", p.var("zz"))), p.block(p.n("say", p.var("err"))), s=["err"]), p.n(r.choice(["assign", "addassign"]), p.lit(1), s=["zz"]))
    if r.random() < .3:  # a variable passed by name which holds a list
        p.func("upl", ["v"], p.block(p.n("listinsertlast", p.lit(9), p.var("v")), p.set("v", p.n("list", p.var("v"), p.lit(8))), p.n("addassign", p.lit(1), s=["v"]) if r.random() < .3 else p.say(p.var("v"))), ["v"])
        p.script(p.ents[-1], ("flag",), p.n("locals", s=["ql"]), p.set("ql", p.lit([1, 2])), p.n("scallfn", p.lit("ql"), s=["upl"]), p.say(p.var("ql")), p.n("scallfn", p.lit("ql"), s=["upl"]), p.say(p.var("ql")))
    if r.random() < .5:  # upvars of an explicit name
        p.func("up", ["v", "k"], p.block(p.n("addassign", p.var("k"), s=["v"]), p.n("say", p.var("v")), *([p.n("locals", s=["v"]), p.set("v", p.lit(77))] if r.random() < .3 else [])), ["v"])
        v = r.choice(["q", "w", "g0"])
        p.script(p.ents[-1], ("flag",), p.n("locals", s=["q"]), p.set("q", p.lit(5)), p.n("scallfn", p.lit(v), p.lit(3), s=["up", "w"]), p.n("say", p.var("q")), p.n("say", p.var("w")), p.n("scallfn", p.lit(r.choice(["w", "nope"])), p.var("w"), s=["up"]), p.n("say", p.var("w")))
    return c
def C08(r):
    """closures"""
    def clocall(g, sc, d):
        p = g.p
        a = [(g.name("a"), "num") for _ in range(r.randint(0, 2))]
        k = len(a) if r.random() < .93 else r.randint(0, 3)
        return p.n("callclo", g.rclosure(sc, a, "num", d), *[g.expr("num", 1, sc) for _ in range(k)])
    st = dict(assign=4, addassign=4, say=3, locals=3, call=2, runclo=4, tell=3, fork=3, hof=3, repeat=1.5, mark=1, clostore=4, clorun=5, counter=1.5, sleep=.5, **{"if": 1, "try": 1, "for": 1})
    g = Gen(r, st, BASIC | {"listcons"}, mism=.01)
    g.extra = {"num": [clocall]}
    vars, ents = setup(g, r.randint(1, 2))
    g.p.glob("k0", 0); g.p.glob("k1", 0)
    def s_clostore(d, sc):
        p = g.p
        ps = [(r.choice(["a", "b", "g0"]), "num") for _ in range(r.randint(0, 1))]
        s2 = sc.sub(loop=sc.loop + 1, warp=True)
        for q, t in ps: s2.vars[q] = t
        b = [g.stmt(1, s2) for _ in range(r.randint(1, 2))]
        if r.random() < .6: b.append(p.n("return", g.expr("num", 1, s2)))
        caps = [v for v in sc.vars if r.random() < .8]
        return p.set(r.choice(["k0", "k1"]), g.closure(sc, [q for q, _ in ps], p.block(*b), caps))
    def s_clorun(d, sc):
        p = g.p
        a = [g.expr("num", 1, sc) for _ in range(r.randint(0, 1))]
        k = p.var(r.choice(["k0", "k1"]))
        x = r.choice([lambda: p.n("scallclo", k, *a), lambda: p.n("say", p.n("callclo", k, *a)), lambda: p.n("scallcloin", p.n("entity", s=[r.choice(g.sprites)]) if r.random() < .8 else g.expr("any", 1, sc), k, *a), lambda: p.n("say", p.n("callcloin", p.n("entity", s=[r.choice(g.sprites)]), k, *a)), lambda: p.n("fork", k, *a)])()
        return p.n("try", p.block(x), p.block(p.n("say", p.var("err"))), s=["err"]) if r.random() < .8 else x
    def s_counter(d, sc):  # a counter whose creating call has returned
        p = g.p
        return p.block(p.set("k0", p.n("callfn", g.expr("num", 1, sc), s=["mk"])), p.n("say", p.n("list", p.n("callclo", p.var("k0")), p.n("callclo", p.var("k0")), p.n("callclo", p.n("callfn", p.lit(50), s=["mk"])), p.n("callclo", p.var("k0")))))
    g.s_clostore, g.s_clorun = s_clostore, s_clorun
    g.s_counter = s_counter
    p = g.p
    if r.random() < .4:  # launched with arguments, sharing a variable with its launcher
        v, k = r.choice(["q", "a"]), r.randint(1, 3)
        ps = ["b%d" % i for i in range(k)]
        e0 = ents[0][0]
        p.script(e0, ("flag",), p.n("locals", s=[v]), p.set(v, p.lit(1)), p.n("fork", p.n("closure", p.block(*[p.n("addassign", p.var(x), s=[v]) for x in ps], p.say(p.var(v)), p.n("repeat", p.lit(1), p.block()), p.n("addassign", p.lit(100), s=[v])), s=ps + [v], v=num(k)), *[p.lit(10 * i) for i in range(k)]),
                 p.n("addassign", p.lit(1000), s=[v]), p.n("repeat", p.lit(3), p.block(p.say(p.var(v)))))
    p.func("mk", ["n"], p.block(p.n("locals", s=["z"]), p.n("return", p.n("closure", p.block(p.n("addassign", p.lit(1), s=["n"]), p.n("addassign", p.var("n"), s=["z"]), p.n("return", p.n("list", p.var("n"), p.var("z")))), s=["n", "z"], v={"n": 0}))))
    functions(g, vars, ents, r.randint(0, 2), 2)
    anyscripts(g, vars, ents, [("flag",)], r.randint(1, 3), 2, (3, 7))
    for nd in p.nodes:  # flatten nested statement blocks produced by counter
        if nd["o"] == "block": nd["a"] = flat(p, nd["a"])
    return case(p, env(turns=mkturns(r, 30, [], sn=.3)))
def flat(p, a):
    out = []
    for x in a: out += flat(p, p.nodes[x - 1]["a"]) if p.nodes[x - 1]["o"] == "block" else [x]
    return out
def C09(r):
    """calls and recursion"""
    st = dict(assign=3, addassign=2, say=2, locals=2, call=5, saycall=5, repeat=2, foreach=1, runclo=2, tell=1, warp=2, hof=1.5, mark=1, **{"for": 1, "try": 2, "if": 2, "return": 2})
    g, c = LANG(r, st, BASIC, nf=4, maxdepth=r.choice([4, 6, 12, 30]))
    p, e = g.p, g.p.ents[0]
    depth = c["env"]["maxdepth"]
    if r.random() < .5:  # unbounded recursion through functions, closures or handlers
        kind = r.choice(["fn", "clo", "mix", "mut", "try"])
        if kind == "fn": p.func("inf", ["n"], p.block(p.n("addassign", p.lit(1), s=["g0"]), p.n("return", p.n("callfn", p.var("n"), s=["inf"]))))
        elif kind == "clo": p.func("inf", ["n"], p.block(p.n("addassign", p.lit(1), s=["g0"]), p.n("return", p.n("callclo", p.n("closure", p.block(p.n("return", p.n("callfn", p.var("n"), s=["inf"]))), s=["n"], v={"n": 0})))))
        elif kind == "mut":
            p.func("inf", ["n"], p.block(p.n("return", p.n("callfn", p.var("n"), s=["inf2"]))))
            p.func("inf2", ["n"], p.block(p.n("addassign", p.lit(1), s=["g0"]), p.n("return", p.n("callfn", p.n("strcat", p.n("list", p.var("n"))), s=["inf"]))))
        elif kind == "try": p.func("inf", ["n"], p.block(p.n("addassign", p.lit(1), s=["g0"]), p.n("try", p.block(p.n("return", p.n("callfn", p.n("sub", p.var("n"), p.lit(1)), s=["inf"]))), p.block(p.n("return", p.n("strcat", p.n("list", p.var("n"), p.lit(":"), p.var("e"))))), s=["e"])))
        else:
            p.glob("kk", 0)
            p.func("inf", ["n"], p.block(p.set("kk", p.n("closure", p.block(p.n("addassign", p.lit(1), s=["g0"]), p.n("return", p.n("callclo", p.var("kk")))), s=[], v={"n": 0})), p.n("return", p.n("callclo", p.var("kk")))))
        call = lambda: p.n("say", p.n("callfn", p.lit(1), s=["inf"]))
        p.script(e, ("flag",), p.n("try", p.block(call()), p.block(p.n("say", p.var("e"))), s=["e"]), p.n("say", p.var("g0")), *([call()] if r.random() < .5 else []), p.says("after"))
    if r.random() < .3:  # many parameters; the list that is returned is the very list
        k = r.randint(4, 8)
        ps = r.sample(["x", "y", "z", "n", "m", "k", "u", "w", "q"], k)
        p.func("many", ps, p.block(p.n("return", p.n("list", *[p.var(x) for x in ps]))))
        p.glob("gl", [1, 2])
        p.func("it", ["l"], p.block(p.n("return", p.var("l"))))
        st = [p.say(p.n("callfn", *[p.lit(i) for i in range(k)], s=["many"])), p.say(p.n("same", p.n("callfn", p.var("gl"), s=["it"]), p.var("gl"))), p.n("listinsertlast", p.lit(3), p.n("callfn", p.n("callfn", p.var("gl"), s=["it"]), s=["it"])), p.say(p.var("gl"))]
        p.script(e, ("flag",), *st, p.n("warp", p.block(*st)))
    if r.random() < .4:  # exactly at the limit
        k = depth - r.choice([0, 1, 2])
        p.func("down", ["n"], p.block(p.n("if", p.n("lt", p.var("n"), p.lit(2)), p.block(p.n("return", p.lit("bottom")))), p.n("return", p.n("callfn", p.n("sub", p.var("n"), p.lit(1)), s=["down"]))))
        p.script(e, ("flag",), p.n("say", p.n("callfn", p.lit(k), s=["down"])), p.says("ok"))
    return c
def C10(r):
    """errors and handlers"""
    st = dict(assign=3, addassign=2, say=1, tag=2, call=4, saycall=3, repeat=2, foreach=1, runclo=2, tell=1, warp=2, hof=1.5, err=5, throw=4, fork=.7, broadcast=.3, lins=.7, sys=.7, sleep=.4, **{"for": 1, "try": 7, "if": 2, "return": 1})
    g, c = LANG(r, st, BASIC | {"div", "listget"}, nf=3, mism=.05, maxdepth=r.choice([5, 10, 30]), nscr=3, host=hostlist(r))
    return c
def C24(r):
    """labelled blocks"""
    st = dict(assign=3, addassign=2, say=3, call=4, saycall=3, repeat=2, foreach=1, runclo=2, tell=1, warp=1.5, hof=2, err=5, throw=2, fork=.5, lins=1, watch=.5, broadcast=.5, ask=.5, rpc=.5, media=.5, prop=.5, **{"for": 1.5, "try": 2, "if": 3, "ifelse": 2, "until": 1, "return": 1})
    g, c = LANG(r, st, None, nf=3, mism=.12, labels=r.choice([1, 1, 1, .6]), nscr=4, host=hostlist(r))
    if r.random() < .3:
        pre, suf, sep = r.choice([("item_", "", "_"), ("", "", "_"), ("x:", "y", "::"), ("(", ")", ", "), ("", "z", "abc"), ("\u03bb", "\U0001f600", "\u00e9")])
        for n in c["nodes"]:
            if n["l"]:
                n["l"] = pre + sep.join(str(r.choice([0, 1, -1, 17, 300, -70000, 2**40, 5, r.randint(-999, 999)])) for _ in range(r.randint(1, 4))) + suf
    return c
def C11(r):
    """control flow of large programs"""
    st = dict(mark=3, tag=2, assign=3, addassign=2, say=1, repeat=3, until=1.5, foreach=1.5, warp=1, saycall=1.5, hof=1, watch=.2, **{"for": 2.5, "if": 4, "ifelse": 4, "try": 1, "return": .3})
    g = Gen(r, st, BASIC | {"min", "max", "range"}, mism=0)
    big = r.choice([1, 1, 3, 10, 40])
    p = g.p
    ints = [x * 2 ** k + d for k in range(31) for x in (1, -1) for d in (-1, 0, 1) if abs(x * 2 ** k + d) < 2 ** 31 - 1]
    strs = ["+5", "007", "-0", "-07", "00", "0", "5", "-1", "2147483647", "-2147483648", "2147483648", "1_0", "9223372036854775807", "9223372036854775808", "1e3", "0x10", " 5", "5 ", "", "-", "+", "65535", "00000", "-128", "128", "4294967295"]
    tail = "".join(r.choice("abcdefgh") for _ in range(12))
    long = "".join(r.choice("klmnop") for _ in range(40)) * r.choice([1, 2, 10, 60, 420, 1700]) + tail
    def lit1(x): return p.lit(x) if isinstance(x, str) or abs(x) < 2 ** 29 else p.n("strcat", p.n("list", p.lit(x)))
    def s_lits(d, sc):
        return p.say(p.n("list", *[lit1(r.choice(ints if r.random() < .6 else strs)) for _ in range(r.randint(1, 6))], p.n("typeis", p.lit(r.choice(strs)), s=["Text"])))
    def s_long(d, sc):
        k = r.randint(0, len(tail) - 1)
        return p.says(long if r.random() < .4 else r.choice([tail, tail[k:], tail[:k + 1], long[k:k + 50], long[-k - 30:]]))
    def odd(): return p.lit(r.choice([True, False, "2", "x", "true", "", (5, 2), (9, 2), (7, 1), (-1, 2), 0, 3, [1], []]))
    def logic(d): return p.lit(r.choice([True, False])) if d == 0 and r.random() < .8 else odd() if d == 0 or r.random() < .12 else p.n(r.choice(["and", "or"]), logic(d - 1), logic(d - 1)) if r.random() < .8 else p.n("not", logic(d - 1))
    def s_odd(d, sc):
        k, v = r.random(), g.name("o_")
        e = g.name("e")
        if k < .2: z = p.n("for", odd(), odd(), p.block(p.say(p.var(v))), s=[v])
        elif k < .4: z = p.n("repeat", odd(), p.block(p.says("r")))
        elif k < .75: z = p.say(logic(3))
        elif k < .85: z = p.n(r.choice(["if", "until"]), logic(2), p.block(p.says("c"), p.n("throw", p.lit("out"))))
        elif k < .92: z = p.n("ifelse", logic(2), p.block(p.says("c")), p.block(p.says("d")))
        else: z = p.n("waituntil", p.n("or", logic(1), p.lit(True)))
        return p.n("try", p.block(z), p.block(p.say(p.var(e))), s=[e])
    def s_shared(d, sc): # the list a custom block returns is the variable's own: looping goes over the items it had
        x, q = g.name("i_"), r.choice(["shared_list", "own_list"])
        l = p.n("callfn", s=[q]) if r.random() < .7 else p.var("shared")
        return p.n("foreach", l, p.block(p.say(p.var(x)), p.n("if", p.n("lt", p.n("listlen", p.var("shared")), p.lit(6)), p.block(r.choice([lambda: p.n("listinsertlast", p.lit(r.randint(5, 9)), p.var("shared")), lambda: p.n("listinsert", p.lit(0), p.lit(1), p.var("shared")), lambda: p.n("listremove", p.lit(1), p.var("shared"))])()))), s=[x])
    g.s_lits, g.s_long, g.s_odd, g.s_shared = s_lits, s_long, s_odd, s_shared
    st.update(lits=1.5, long=1, odd=2.5, shared=.7)
    vars, ents = setup(g, r.randint(1, 3))
    functions(g, vars, ents, r.randint(0, 3), 2)
    p.glob("shared", [1, 2, 3])
    p.func("shared_list", [], p.block(p.n("return", p.var("shared"))))
    p.func("own_list", [], p.block(p.n("return", p.n("copylist", p.var("shared")))))
    for _ in range(r.randint(1, 2)):
        e, ev = r.choice(ents)
        sc = scope(vars, e, ev, g)
        b = [g.stmt(3, sc) for _ in range(r.randint(2, 6))]
        if big > 1:  # a long skipped or looped-over stretch moves every jump target
            q = [p.says("pad%d" % i if r.random() < .7 else "x" * r.choice([1, 60, 200])) for i in range(big * r.randint(1, 6))]
            z = p.block(*q)
            b.insert(r.randint(0, len(b)), r.choice([lambda: p.n("if", p.lit(r.random() < .3), z), lambda: p.n("ifelse", p.lit(r.random() < .3), p.block(p.says("then")), z), lambda: p.n("repeat", p.lit(r.choice([0, 1, 2])), z), lambda: p.n("foreach", p.lit([1] * r.randint(0, 2)), z, s=["it"]), lambda: p.n("warp", z), lambda: p.n("try", p.block(p.n("throw", p.lit("E"))), z, s=["e"]), lambda: p.n("for", p.lit(1), p.lit(r.choice([1, 2])), z, s=["it"])])())
        p.script(e, ("flag",), *b)
    return case(p, env(turns=mkturns(r, 60, [], sn=.1), serde=r.choice([0, 0, 0, 1, 2])))
def C17(r):
    """host requests"""
    st = dict(mark=2, say=3, think=1, saytimed=.7, ask=3, rpc=4, sys=4, unk=2, repeat=1.5, warp=1, hosterr=3, call=1, media=1, prop=1, watch=.5, pause=.5, **{"if": 1, "try": 3})
    g = Gen(r, st, BASIC, mism=.02)
    def s_hosterr(d, sc): return g.p.n("say", g.p.n("list", g.p.n("rpcerror"), g.p.n("syserror"), g.p.n("answer")))
    g.s_hosterr = s_hosterr
    g.texts = TEXTS + ["  ", "\t", "\n", " "]
    g.extra = {"any": [lambda g, s, d: g.p.n("rpc", g.expr("any", 1, s), g.expr("num", 1, s), s=[r.choice(["", "http://h"]), "Svc", "h", "p", "q"]), lambda g, s, d: g.p.n("callsys", g.p.lit(r.choice(["s1", "s2", 5])), g.expr("list", 1, s)), lambda g, s, d: g.p.n("answer"), lambda g, s, d: g.p.n("unknown", g.expr("any", 1, s), s=["blk"])]}
    vars, ents = setup(g, r.randint(1, 2))
    functions(g, vars, ents, r.randint(0, 1), 1, rec=False, upvars=False)
    anyscripts(g, vars, ents, [("flag",)], r.randint(1, 3), 2, (2, 6))
    return case(g.p, env(turns=mkturns(r, 40, [start], prob=.03), host=hostlist(r), rpcsoft=r.random() < .5, sysoft=r.random() < .5))
def C18(r):
    """clock"""
    st = dict(mark=3, sleep=6, saytimed=1, waituntil=3, repeat=2, resettimer=1.5, saytime=4, huge=.4, assign=1, addassign=2, warp=1, forever=.4, **{"if": 1, "try": 1})
    g = Gen(r, st, BASIC, mism=.01)
    q = ["year", "month", "date", "dow", "hour", "minute", "second", "unix"]
    def s_saytime(d, sc): return g.p.n("say", g.p.n("timer")) if r.random() < .6 else g.p.n("say", g.p.n("list", *[g.p.n("realtime", s=[r.choice(q)]) for _ in range(3)]))
    g.s_saytime = s_saytime
    huge = lambda d, sc: g.p.n("sleep", g.p.lit(float(r.choice(["1e17", "1e20", "3e17", "1e200", "1.7e308"]))), s=["huge"]) if r.random() < .3 else None
    g.s_huge = huge
    g.extra = {"bool": [lambda g, s, d: g.p.n("gt", g.p.n("timer"), g.p.lit(r.choice([(1, 4), (1, 5), (1, 6)])))], "num": [lambda g, s, d: g.p.n("timer")]}
    vars, ents = setup(g, 1)
    g.gfns, g.efns = [], {}
    anyscripts(g, vars, ents, [("flag",), ("flag",), ("key", "a")], r.randint(1, 3), 2, (2, 5))
    mode = r.choice(["arb", "arb", "real", "real", "big", "none"])
    base = r.choice([[2024, 2, 28, 23, 59, 58, 0], [2023, 12, 31, 23, 59, 0, 60], [1999, 1, 1, 0, 0, 0, -300], [2100, 2, 28, 12, 30, 15, 330], [2000, 2, 29, 6, 7, 8, 0], [r.randint(1970, 2200), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), 0]])
    t0 = r.choice([0, 0, 5, 1000])
    dt = r.choice([(0, 1, 5, 16, 30), (0, 0, 0, 7), (500, 1000, 2000), (60000, 3600000, 86400000)]) if mode == "real" else r.choice([(0, 1, 5, 16, 30), (0, 0, 0, 7), (100, 500)])
    ts = mkturns(r, 40, [start, lambda: key("a")], prob=.05, dt=dt)
    if dt == (60000, 3600000, 86400000):
        for i, x in enumerate(ts): x["t"] = min(x["t"], 400000000)
    for x in ts: x["t"] += t0
    if r.random() < .15:  # the host's clock may step back
        for x in ts[20:]: x["t"] = max(0, x["t"] - 40)
    return case(g.p, env(turns=ts, timemode=mode, base=base, t0=t0))
def C18b(r): return C18(r)
def sprite(p, r, name):
    e = p.ent(name)
    e.update(visible=r.random() < .7, color=[r.choice([0, 255, 80, 13, 200]) for _ in range(3)] + [r.choice([255, 255, 128, 0])], x=py(r.choice(NUMS)), y=py(r.choice(NUMS)), heading=py(r.choice([90, 0, 360, -90, 450, 45, -360, 720, (1, 1)])), scale=py(r.choice([1, 2, (1, 1), (1, 2), 0])))
    e["costumes"] = [[n, img(i, cx)] for n, i, cx in r.sample([("c1", "i1", None), ("c2", "i2", (3, 4)), ("C1", "i1", None), ("z", "i9", ((1, 1), -2))], r.randint(0, 3))]
    e["active"] = r.randint(0, len(e["costumes"]))
    e["sounds"] = [[n, aud(i)] for n, i in r.sample([("a1", "w1"), ("a2", "w2"), ("q", "w1")], r.randint(0, 2))]
    return e
def C19(r):
    """sprite properties, costumes and sounds"""
    st = dict(hostimg=r.choice([0, 0, 3]), prop=10, media=4, sayprop=4, assign=1, repeat=1, clone=.5, tell=1, mark=.5, **{"try": 2, "if": .5})
    g = Gen(r, st, BASIC | {"neg"}, mism=.03)
    eff = ["color", "saturation", "brightness", "ghost", "fisheye", "whirl", "pixelate", "mosaic", "negative"]
    pen = ["size", "hue", "saturation", "brightness", "transparency"]
    def rd(g, s, d):
        p = g.p
        k = r.choice(["heading", "xpos", "ypos", "pendown", "size", "visible", "effect", "penattr", "costumenumber", "costumename", "soundname", "costume", "costumelist", "soundlist"])
        if k == "effect": return p.n(k, s=[r.choice(eff)])
        if k == "penattr": return p.n(k, s=[r.choice(pen)])
        if k == "costumename": return p.n(k, r.choice([lambda: p.n("costume"), lambda: p.lit(r.choice(["c1", "", "none"])), lambda: g.expr("any", 0, s)])())
        if k == "soundname": return p.n(k, r.choice([lambda: p.lit(r.choice(["a1", "", "none"])), lambda: g.expr("any", 0, s)])())
        return p.n(k)
    g.s_sayprop = lambda d, sc: g.p.n("say", rd(g, sc, d))
    def s_hostimg(d, sc): return g.p.block(g.p.n("setcostume", g.p.n("callsys", g.p.lit("img"), g.p.n("list"))), g.p.n("say", g.p.n("list", g.p.n("costumenumber"), g.p.n("same", g.p.n("costume"), g.p.n("listget", g.p.lit(1), g.p.n("costumelist"))))))
    g.s_hostimg = s_hostimg
    pmap = {a: b for a, b in (("Fisheye", "Volume"), ("Whirl", "Balance"), ("Mosaic", "Tempo"), ("Negative", "PenColor"))} if r.random() < .3 else {}
    def s_packed(d, sc): # corners of the colour solid, read as one number
        sets = [g.p.n("setpenattr", g.p.lit(v), s=[k]) for k, v in (("hue", r.choice([0, 60, 120, 180, 240, 300, 360])), ("saturation", r.choice([0, 100, 100, 120])), ("brightness", r.choice([0, 100, 100])), ("transparency", r.choice([0, 100, 100, -5])))]
        r.shuffle(sets)
        return g.p.block(*sets[:r.choice([4, 4, 4, 3])], g.p.n("say", g.p.n("effect", s=["negative"])))
    g.s_packed = s_packed
    if pmap: st["packed"] = 3
    vars = {"g0": "num"}
    g.p.glob("g0", 5)
    names = ["s1", "s2"][:r.randint(1, 2)]
    ents = [(sprite(g.p, r, n), {}) for n in names]
    g.sprites, g.gfns, g.efns = names, [], {}
    anyscripts(g, vars, ents, [("flag",)], r.randint(1, 2), 2, (3, 9))
    for nd in g.p.nodes:
        if nd["o"] == "block": nd["a"] = flat(g.p, nd["a"])
    store = r.random() < .75
    if "hostimg" in st and st["hostimg"]: return case(g.p, env(turns=mkturns(r, 40, [], sn=.6), store=store, pmap=pmap, host=[dict(p=r.randint(0, 1), r="ok", v=img(x) if k % 3 else r.choice([img(x), aud("w1"), txt("c1")])) for k, x in enumerate(["i1", "i2", "i1", "i9"])]))
    return case(g.p, env(turns=mkturns(r, 40, [], sn=.6), store=store, pmap=pmap, host=hostlist(r) if r.random() < .4 else []))
def C20(r):
    """initial state, serialization, collection"""
    st = dict(assign=3, say=4, lins=5, saycall=1, repeat=2, runclo=1, hof=1, clone=1, tell=1, broadcast=.5, locals=1, fork=.7, **{"try": 1, "if": 1, "for": 1})
    g = Gen(r, st, BASIC | {"listget", "copylist", "same"}, mism=.01)
    p = g.p
    ids = list(range(1, 5))
    used = set()
    def val(d):
        k = r.random()
        if k < .3: return g.litval("num")
        if k < .4: return txt(r.choice(TEXTS2))
        if k < .45: return boo(r.random() < .5)
        if k < .5: return img(r.choice(["i1", "i2"]))
        if k < .55: return aud("w1")
        if k < .7: used.add(("r", x := r.choice(ids))); return ref(x)
        free = [i for i in ids if ("d", i) not in used]
        if d <= 0: return num(3)
        if free and r.random() < .7:
            i = r.choice(free); used.add(("d", i))
            return lst(*[val(d - 1) for _ in range(r.randint(0, 3))], id=i)
        return lst(*[val(d - 1) for _ in range(r.randint(0, 3))])
    vars = {}
    for i in range(r.randint(2, 4)):
        v = val(3)
        p.globals.append(["g%d" % i, v])
        vars["g%d" % i] = "list" if v["t"] in ("lst", "ref") else "num" if v["t"] == "n" else "any"
    ents = []
    for n in r.sample(["s1", "s2", "S3", "Stage"], r.randint(1, 3)):
        e = sprite(p, r, n)
        ev = {}
        for f in r.sample(["f0", "f1", "g0"], r.randint(0, 2)):
            v = val(2)
            e["fields"].append([f, v])
            ev[f] = "list" if v["t"] in ("lst", "ref") else "num" if v["t"] == "n" else "any"
        ents.append((e, ev))
    for i in ids:  # every reference has its object
        if ("r", i) in used and ("d", i) not in used:
            used.add(("d", i))
            p.globals.append(["h%d" % i, lst(num(i), ref(i) if r.random() < .5 else num(0), id=i)])
    g.sprites = [e["name"] for e, _ in ents]
    functions(g, vars, ents, r.randint(0, 2), 1)
    anyscripts(g, vars, ents, [("flag",), ("flag",), ("msg", "m1"), ("clone",)], r.randint(1, 3), 2, (2, 5))
    return case(p, env(turns=mkturns(r, 25, [start, stop], prob=.08, sn=.5), serde=r.choice([0, 1, 2]), gc=r.choice([0, 1, 2, 3]), store=r.random() < .5))

# ---------------------------------------------------------------- lists shared between variables, captures and elements
def listprog(r, cmds, reps, hofs, n=(8, 16)):
    p = Proj(r)
    ids = [1]
    def val(d):
        k = r.random()
        if d == 0 or k < .55: return py(r.choice([1, 2, 3, "a", "B", (1, 1), True, "2", ""]))
        if k < .65 and ids[0] > 1: return ref(r.randint(1, ids[0] - 1))
        i = None
        if r.random() < .5: i = ids[0]; ids[0] += 1
        return lst(*[val(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))], id=i)
    def lval(): 
        v = val(3)
        return v if v["t"] == "lst" else lst(v, val(1), val(2))
    names = ["a", "b", "c"]
    big = r.random() < .25
    for x in names: p.glob(x, lval() if not big or r.random() < .5 else lst(*[val(1) for _ in range(r.randint(8, 30))]))
    p.glob("f", 0)
    e = p.ent("s1")
    if r.random() < .5: e["fields"].append(["d", lval()]); names.append("d")
    def sc(): return p.lit(r.choice([1, 2, 3, "a", "x", (1, 1), True, "2"]))
    def lx(d=2):
        k = r.random()
        if k < .6 or d == 0: return p.var(r.choice(names))
        if k < .85: return p.n("listget", ix(), lx(d - 1))
        if k < .9: return p.n("listgetlast", lx(d - 1))
        return lr(d - 1)
    def ix():
        k = r.random()
        if k < .7: return p.lit(r.choice([1, 1, 2, 2, 3, 4, "1"]))
        if k < .85: return p.n("list", *[p.lit(r.choice([1, 1, 2, 3])) for _ in range(r.randint(0, 3))])
        if k < .93: return p.n("listlen", p.var(r.choice(names)))
        return p.var(r.choice(names))
    def any_(d=1): return sc() if r.random() < .5 else lx(d)
    def lr(d=1):
        o = r.choice(reps)
        if o == "combinations" and big: o = "listcdr"
        if o in ("listcons",): return p.n(o, any_(d), lx(d))
        if o == "listcat": return p.n(o, p.n("list", *[lx(d) for _ in range(r.randint(0, 3))]))
        if o == "combinations": return p.n(o, p.n("list", *[lx(0) for _ in range(r.randint(0, 2))]))
        if o == "reshape": return p.n(o, lx(d), p.n("list", *[p.lit(r.choice([0, 1, 2, 3])) for _ in range(r.randint(0, 2))]))
        if o == "listget": return p.n(o, p.n("list", *[ix() for _ in range(r.randint(0, 3))]), lx(d))
        if o == "range": return p.n(o, p.lit(r.choice([1, 2, (1, 1), 0])), p.lit(r.choice([1, 3, -1])))
        if o == "list": return p.n(o, *[any_(d) for _ in range(r.randint(0, 3))])
        return p.n(o, lx(d))
    def scal():
        o = r.choice(["listlen", "listisempty", "listrank", "listdims", "listfind", "listcontains", "listlines", "listcsv", "listjson", "eq", "same", "listgetrandom", "strcat"])
        if o == "listfind": return p.n(o, any_(), lx())
        if o == "listcontains": return p.n(o, lx(), any_())
        if o in ("eq", "same"): return p.n(o, lx(), any_())
        return p.n(o, lx())
    def cmd():
        o = r.choice(cmds)
        q = lx(1)
        if o == "listinsert": return p.n(o, any_(), ix(), q)
        if o in ("listinsertlast", "listinsertrandom"): return p.n(o, any_(), q)
        if o == "listremove": return p.n(o, ix(), q)
        if o in ("listassignlast", "listassignrandom"): return p.n(o, q, any_())
        if o == "listassign": return p.n(o, ix(), q, any_())
        return p.n(o, q)
    fresh = [0]
    def hof():
        k = r.choice(["map", "keep", "findfirst", "combine", "foreach"])
        fresh[0] += 1
        x, y = "x%d" % fresh[0], "y%d" % fresh[0]
        l = lx(1)
        mut = [cmd()] if r.random() < .6 else []
        pre = [p.say(p.n("list", p.lit(x), p.var(x)))] if r.random() < .6 else []
        if k == "foreach": return p.n("foreach", l, p.block(*pre, *mut), s=[x])
        caps = ["a", "b", "c"] + (["d"] if "d" in names else [])
        if k == "combine":
            body = p.block(*pre, *mut, p.n("return", r.choice([lambda: p.n("list", p.var(x), p.var(y)), lambda: p.var(y), lambda: p.var(x), lambda: p.n("strcat", p.n("list", p.var(x), p.var(y)))])()))
            return p.say(p.n("combine", l, p.n("closure", body, s=[x, y] + caps, v=num(2))))
        ret = r.choice([lambda: p.n("same", p.var(x), any_()), lambda: p.n("listcontains", lx(1), p.var(x)), lambda: p.lit(r.random() < .5)])() if k != "map" else r.choice([lambda: p.n("list", p.var(x), p.var(x)), lambda: p.var(x), lambda: lx(1), lambda: p.n("typeis", p.var(x), s=["List"])])()
        body = p.block(*pre, *mut, p.n("return", ret))
        z = p.n(k, p.n("closure", body, s=[x] + caps, v=num(1)), l)
        return p.set(r.choice(names), z) if k in ("map", "keep") and r.random() < .3 else p.say(z)
    def stm():
        k = r.random()
        if k < hofs: return [hof()]
        if k < .55: return [cmd()]
        if k < .75: return [p.set(r.choice(names), lr())]
        if k < .82: return [p.set("f", p.n("closure", p.block(cmd(), p.n("return", lx(1))), s=names, v=num(0)))]
        if k < .88: return [p.say(p.n("callclo", p.var("f")))]
        return [p.say(scal())]
    st = []
    for _ in range(r.randint(*n)):
        st.append(p.n("try", p.block(*stm()), p.block(p.say(p.var("e"))), s=["e"]))
        if r.random() < .6: st.append(p.say(p.n("list", *[p.var(x) for x in names])))
    p.script(e, ("flag",), *st)
    return case(p, env(turns=mkturns(r, 30, [], sn=.3), gc=r.choice([0, 0, 1, 3])))
CMDS = ["listinsert", "listinsertlast", "listinsertlast", "listremove", "listremovelast", "listassign", "listassign", "listassignlast", "listremoveall", "listinsertrandom", "listassignrandom"]
REPS = ["listcons", "listcat", "listget", "listrev", "listcdr", "copylist", "list", "listflatten", "listcolumns", "reshape", "combinations", "range"]
def C14S(r): return listprog(r, CMDS, ["listcons", "listcat", "listcdr", "copylist", "list", "listget", "listrev"], .05)
def C15S(r): return listprog(r, CMDS, REPS, .4)

# ---------------------------------------------------------------- values leaving and entering the VM; notes
def C21S(r):
    """lists with sharing and cycles, media, closures and sprites sent over the network and turned into JSON"""
    p = Proj(r)
    ids = [1]
    def val(d):
        k = r.random()
        if d == 0 or k < .45: return py(r.choice([1, -2, (3, 1), "a", "\u00e9\"q", "", True, False]))
        if k < .53: return r.choice([img("i1"), img("i2"), aud("w1")])
        if k < .68 and ids[0] > 1: return ref(r.randint(1, ids[0] - 1))
        i = None
        if r.random() < .5: i = ids[0]; ids[0] += 1
        return lst(*[val(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))], id=i)
    def lval():
        v = val(3)
        return v if v["t"] == "lst" else lst(v, val(1))
    names = ["a", "b", "c"]
    for x in names: p.glob(x, lval())
    e, e2 = p.ent("s1"), p.ent("s2")
    def lx(d=1):
        k = r.random()
        return p.var(r.choice(names)) if k < .7 or d == 0 else p.n("list", lx(d - 1), lx(d - 1)) if k < .8 else p.n("listget", p.lit(r.choice([1, 2])), lx(d - 1)) if k < .9 else p.n("copylist", lx(d - 1))
    def x(): return r.choice([lambda: lx(), lambda: lx(), lambda: lx(), lambda: p.lit(r.choice([4, "t", True, (5, 2)])), lambda: p.n("this"), lambda: p.n("closure", p.block(), s=[], v={"n": 0}), lambda: p.n("entity", s=["s2"])])()
    def send():
        k = r.random()
        if k < .45: return p.n("netsend", x(), x(), p.lit(r.choice(["role2", "everyone", ["r1", "r2"]])), s=["T", "x", "y"])
        if k < .6: return p.say(p.n("netreply", x(), p.lit("role2"), s=["R", "x"]))
        if k < .8: return p.say(p.n("listjson", lx()))
        if k < .9: return p.say(p.n("split", p.n("listjson", lx()), s=["json"]))
        return p.n("reply", x())
    def mut():
        q = lx()
        return r.choice([lambda: p.n("listinsertlast", lx(), q), lambda: p.n("listassign", p.lit(1), q, lx()), lambda: p.n("listremovelast", q), lambda: p.n("listinsertlast", x(), q)])()
    def body(n): return [p.n("try", p.block(r.choice([send, send, mut])()), p.block(p.say(p.var("e"))), s=["e"]) for _ in range(n)]
    p.script(e, ("flag",), *body(r.randint(4, 10)))
    p.script(e2, ("net", "M", "v", "w"), p.say(p.n("list", p.var("v"), p.var("w"))), p.n("listinsertlast", p.lit(9), p.var("v")), p.say(p.n("same", p.var("v"), p.var("w"))), p.say(p.n("list", p.var("v"), p.var("w"))), *body(r.randint(1, 4)))
    k = [0]
    def mg():
        k[0] += 1
        v = lambda: r.choice([lst(num(1), lst(txt("q"))), lst(), lst(lst(), lst(num(2), boo(True)))])
        return msg("M", [("v", v()), ("w", r.choice([v(), num(3), txt("t")]))], r.choice(["", "src/%d" % k[0]]))
    return case(p, env(turns=mkturns(r, 26, [], msgs=[mg], mprob=.25, sn=.4), replies=replylist(r)))
def C26S(r):
    """notes and rests, played and waited for; pen colours and pen attributes"""
    g = Gen(r, dict(media=6, prop=1, mark=1, assign=1, repeat=1, notes=6, pen=5, **{"try": 3}), BASIC | {"neg"}, mism=.02)
    p = g.p
    def note(d=1):
        k = r.random()
        if k < .5: return p.lit(r.choice([0, 60, 69, 127, 128, 200, 255, 256, 257, 300, -1, -128, (121, 1), (241, 2), (243, 2), (1, 1), 2 ** 31 - 1]))
        if k < .9: return p.lit(r.choice("CDEFGABHcdefgabh") + r.choice(["", "4", "-1", "9", "10", "0", "-2", "5"]) + r.choice(["", "#", "b", "s", "##", "n", "bb"]))
        return p.lit(r.choice(["", "60", "0x3c", "C#4", "c4#", "R", "true", "1e1", " C4 ", True, "Cb-1", "G##9", "C99"])) if d == 0 or r.random() < .7 else p.n("list", note(0))
    def s_notes(d, sc):
        x = note() if r.random() < .4 else p.n("list", *[note() for _ in range(r.randint(0, 4))])
        return p.n("playnotes", x, p.lit(r.choice([1, 0, (1, 2), -1, (3, 1)])), s=[r.choice(["", "wait"])])
    def s_pen(d, sc):
        k = r.random()
        if k < .25: return p.n("setpencolor", v={"c": [r.choice([0, 255, 128, 1, 254, r.randint(0, 255)]) for _ in range(3)] + [r.choice([255, 0, 128, r.randint(0, 255)])]})
        a = r.choice(["hue", "saturation", "brightness", "transparency"])
        if k < .75: return p.n(r.choice(["setpenattr", "changepenattr"]), p.lit(r.choice([0, 1, 25, 50, 75, 99, 100, 101, -1, -50, 200, 360, (25, 1), r.randint(-400, 400)])), s=[a])
        return p.n("say", p.n("list", *[p.n("penattr", s=[x]) for x in ["hue", "saturation", "brightness", "transparency"]]))
    g.s_notes, g.s_pen = s_notes, s_pen
    vars = {"g0": "num"}
    p.glob("g0", 5)
    e = sprite(p, r, "s1")
    g.sprites, g.gfns, g.efns = ["s1"], [], {}
    for _ in range(r.randint(1, 2)):
        sc = scope(vars, e, {}, g)
        p.script(e, ("flag",), *[p.n("try", p.block(g.stmt(1, sc)), p.block(p.say(p.var("e"))), s=["e"]) for _ in range(r.randint(4, 12))])
    return case(p, env(turns=mkturns(r, 30, [], sn=.5), store=r.random() < .75, host=hostlist(r, False) if r.random() < .3 else []))
# ---------------------------------------------------------------- what the host is told about the instances it serves
def lineage(r):
    st = dict(mark=4, tag=4, say=2, assign=2, fork=4, broadcast=4, clone=3, delclone=.7, call=2, runclo=2, tell=2, sleep=1, repeat=1.5, warp=.7, err=.7, sys=2, unk=1, **{"if": 1, "try": 2})
    g = Gen(r, st, BASIC, mism=.01)
    g.stopmodes = dict(script=2, others=1, block=1)
    vars, ents = setup(g, r.randint(1, 2))
    functions(g, vars, ents, r.randint(0, 2), 1, rec=False, upvars=False)
    g.p.glob("cc", 0)
    anyscripts(g, vars, ents, [("flag",), ("flag",), ("key", "a"), ("ev", "E", "x"), ("net", "A", "x")], r.randint(2, 3), 3, (3, 6))
    k = [h for h in (("clone",), ("msg", "m1"), ("msg", "m2"), ("anymsg",)) if r.random() < .8]
    for h in k: anyscripts(g, vars, ents, [h], r.randint(1, 2), 2, (2, 4))
    for e, ev in ents:  # bounded chains
        for s in e["scripts"]:
            if s["hat"][0] in ("clone", "msg", "anymsg"):
                b = g.p.nodes[s["body"] - 1]
                b["a"] = [g.p.n("addassign", g.p.lit(1), s=["cc"]), g.p.n("if", g.p.n("gt", g.p.var("cc"), g.p.lit(12)), g.p.block(g.p.n("stop", s=["script"])))] + b["a"]
    return case(g.p, env(turns=mkturns(r, 40, [lambda: key("a"), start, lambda: evt("E", [("x", 3)], r.random() < .3, 2)], prob=.1, msgs=[lambda: msg("A", [("x", 4)])], mprob=.06), host=hostlist(r)))
def C28(r):
    """host state of instances and sprites"""
    c = lineage(r) if r.random() < .55 else r.choice([C03, C05, C06, C06, C08, C09, C10, C17, C17, C19])(r)
    c["env"]["line"] = True
    if r.random() < .5:
        def layer():
            l = {}
            for k, n in ("req", ["input", "sys", "rpc", "prop", "unk"]), ("cmd", ["print", "set", "change", "cleareffects", "cleardrawings", "costume", "sound", "notes", "stopsounds", "goto", "gotoent", "point", "pointent", "forward"]):
                if r.random() < .75: l[k] = [x for x in n if r.random() < r.choice([0, .2, .5])]
            return l
        c["env"]["layers"] = [layer() for _ in range(r.randint(1, 5))]
        c["env"]["fold"] = r.choice(["left", ""])
    return c
def C31(r):
    """scripts and custom blocks which a host adds, on its own terms, to a project of any other family"""
    c = r.choice([C01, C02, C02, C03, C03, C04, C05, C06, C06, C06, C07, C08, C09, C09, C10, C17, C24, queues, lineage])(r)
    role, turns = c["role"], c["env"]["turns"]
    ents = role["entities"]
    if r.random() < .5: c["env"]["dyn"] = True
    low = lambda h: [h[0], h[1].lower()] if h[0] == "key" and len(h[1]) == 1 else h
    own = [(e, i, low(s["hat"])) for e, x in enumerate(ents, 1) for i, s in enumerate(x["scripts"], 1) if s["hat"][0] != "none"]
    hats = [h for _, _, h in own] or [["flag"]]
    add = lambda e, i, hat, fn=False, to=0: dict(k="add", e=e, i=i, hat=hat, fn=fn, to=to or e)
    late = [0] + sorted(r.choice([0, r.randint(0, len(turns) // 2), r.randint(0, len(turns) - 1)]) for _ in range(2))
    def at(t, a, go=None):
        turns[t]["in"].insert(0 if t == 0 and r.random() < .8 else r.randint(0, len(turns[t]["in"])), a)
        if go: turns[r.randint(t, min(t + r.choice([0, 3, 10]), len(turns) - 1))]["in"].append(go)
    def trigger(h):
        if h[0] == "flag": return start() if r.random() < .5 else None
        if h[0] == "key": return key("k" if h[1] == "any key" else h[1])
        if h[0] == "ev": return evt(h[1], [(f, r.choice([1, 3, "v", [1, [2]]])) for f in h[2:] if r.random() < .9], r.random() < .3, r.choice([0, 1, 5, -1]))
    # scripts of the project which only get their hats from the host
    hide, t0 = r.choice([0, 0, .3, .6, 1]), r.choice([0, 0, None])
    hidden = [o for o in own if r.random() < hide]
    if r.random() < .3: r.shuffle(hidden)
    for e, i, h in reversed(hidden):
        ents[e - 1]["scripts"][i - 1]["hat"] = ["none"]
        t = t0 if t0 is not None else r.choice(late)
        if t == 0: turns[0]["in"].insert(0, add(e, i, h))
        else: at(t, add(e, i, h), trigger(h))
    # scripts once more, perhaps under another event, for another sprite
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if not own: break
        e, i, h = r.choice(own)
        h = low(r.choice(hats)) if r.random() < .4 else r.choice([h, h, ["flag"], ["clone"], ["key", "k"], ["anymsg"]])
        at(r.choice(late), add(e, i, h, to=r.randint(1, len(ents)) if r.random() < .4 else e), trigger(h))
    # custom blocks as scripts, their parameters given by events
    fns = [(e, i, f) for e, fs in enumerate([role["funcs"]] + [x["funcs"] for x in ents]) for i, f in enumerate(fs, 1) if not f["upvars"]]
    for e, i, f in r.sample(fns, min(len(fns), r.choice([0, 1, 2]))) if fns else []:
        h = ["ev", "run%d" % i, *f["params"]]
        t = r.choice(late)
        at(t, add(e, i, h, True, e or r.randint(1, len(ents))), trigger(h))
        for _ in range(r.randint(0, 2)): turns[r.randint(t, len(turns) - 1)]["in"].append(trigger(h))
    return c
