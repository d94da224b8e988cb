"""Random and systematic project generator. A case is described in DESIGN.md ("case format")."""
import random

NUMS = [0, 1, 2, 3, 4, 5, -1, -2, 7, 10, 12, 100, (1, 1), (3, 1), (-5, 1), (1, 2), (9, 2)]
TEXTS = ["", "a", "B", "abc", "Abc", "12", "-3.5", "hello world", " 7 ", "x", "1e2", "0x1f", "z y"]
TEXTS2 = TEXTS + ["\u00e9", "\u00c9", "\U0001F600", "a\u0301b", "\U0001F468\u200d\U0001F469\u200d\U0001F467!", "a,b", "x\ny", "[1,2]", "{\"a\":1}", "true", "+5", ".5", "5.", "1_0", "inf", "NaN", "0b11", "0o17", "0X1F", "-0", "\r\n", "tab\there", "say \"hi\"", "don't", "3,4\n5,6", "\u00df", "SS", "\u03a9", "\u03c9"]

def num(n, k=0):
    if isinstance(n, tuple): n, k = n
    while k > 0 and n % 2 == 0: n //= 2; k -= 1
    return {"t": "n", "n": n, "k": k}
def txt(s): return {"t": "s", "s": s}
def boo(b): return {"t": "b", "b": b}
def lst(*e, id=None):
    d = {"t": "lst", "e": list(e)}
    if id is not None: d["id"] = id
    return d
def ref(i): return {"t": "ref", "id": i}
CENTRE = {"i2": (3, 4), "i9": ((1, 1), -2)}
def img(name, cx=None):
    d = {"t": "i", "i": name}
    cx = CENTRE.get(name, cx)
    if cx: d["cx"], d["cy"] = num(cx[0]), num(cx[1])
    return d
def aud(name): return {"t": "au", "au": name}
def py(x):
    if isinstance(x, bool): return boo(x)
    if isinstance(x, (int,)) : return num(x)
    if isinstance(x, tuple): return num(*x)
    if isinstance(x, float): return {"t": "u", "f": repr(x)}
    if isinstance(x, str): return txt(x)
    if isinstance(x, list): return lst(*[py(y) for y in x])
    return x

class Proj:
    """Builds the flat node table."""
    def __init__(self, rng=None, labels=0):
        self.r = rng or random.Random(0)
        self.nodes, self.globals, self.funcs, self.ents, self.labels = [], [], [], [], labels
    def n(self, o, *a, s=(), v=None, l=None):
        d = {"o": o, "a": list(a), "s": list(s), "l": ""}
        if v is not None: d["v"] = v
        self.nodes.append(d)
        i = len(self.nodes)
        if l is not None: d["l"] = l
        elif o != "block" and self.labels and (self.labels >= 1 or self.r.random() < self.labels): d["l"] = self.label(i)
        return i
    def label(self, i): return "item_%d" % i
    def lit(self, x): return self.n("lit", v=py(x))
    def var(self, x): return self.n("var", s=[x])
    def block(self, *st): return self.n("block", *[x for x in st if x is not None])
    def say(self, x): return self.n("say", x)
    def says(self, x): return self.n("say", self.lit(x))
    def set(self, v, x): return self.n("assign", x, s=[v])
    def glob(self, name, v): self.globals.append([name, py(v)])
    def ent(self, name, **k):
        e = dict(name=name, fields=[], costumes=[], sounds=[], funcs=[], scripts=[], active=0, visible=True, color=[80, 80, 80, 255], x=num(0), y=num(0), heading=num(90), scale=num(1))
        e.update(k)
        self.ents.append(e)
        return e
    def script(self, e, hat, *st): e["scripts"].append(dict(hat=list(hat), body=self.block(*st)))
    def func(self, name, params, body, upvars=(), ent=None):
        (ent["funcs"] if ent else self.funcs).append(dict(name=name, params=list(params), upvars=list(upvars), body=body))
    def tryy(self, st, var="err"): return self.n("try", self.block(*st), self.block(self.n("say", self.n("strcat", self.n("list", self.lit("!"), self.var(var))))), s=[var])

def env(**k):
    d = dict(maxdepth=30, rpcsoft=False, sysoft=False, timemode="arb", base=[2024, 2, 28, 23, 59, 30, 0], t0=0, gc=0, serde=0, store=False, snap0=True, cap=100000, rand=[3, 9, 15, 0, 6], host=[], replies=[], turns=[], pmap={}, line=False, layers=[], fold="")
    d.update(k)
    return d
def turn(t=0, inp=(), msg=None, sn=False): return {"t": t, "in": list(inp), "msg": [msg] if msg else [], "sn": sn}
def start(): return {"k": "start"}
def stop(): return {"k": "stop"}
def key(k): return {"k": "key", "key": k}
def evt(name, args=(), interrupt=False, mq=-1): return {"k": "ev", "name": name, "args": [[a, py(b)] for a, b in args], "int": interrupt, "mq": mq}
def msg(type, vals=(), rk=""): return {"type": type, "vals": [[a, py(b)] for a, b in vals], "rk": rk}
def case(p, e): return dict(id=0, role=dict(globals=p.globals, funcs=p.funcs, entities=p.ents), nodes=p.nodes, env=e)

class Scope:
    def __init__(self, vars, ent=None, fns=(), ret=None, warp=False, loop=0, esc=True):
        self.vars, self.ent, self.fns, self.ret, self.warp, self.loop, self.esc = dict(vars), ent, list(fns), ret, warp, loop, esc
    def sub(self, **k):
        s = Scope(self.vars, self.ent, self.fns, self.ret, self.warp, self.loop, self.esc)
        for a, b in k.items(): setattr(s, a, b)
        return s

EXPR = {  # result type -> op -> operand types
    "num": dict(neg=["num"], abs=["num"], round=["num"], floor=["num"], ceil=["num"], sub=["num", "num"], div=["num", "num"], mod=["num", "num"], add=["nlist"], mul=["nlist"], listlen=["list"], strlen=["text"],
                min=["nlist1"], max=["nlist1"], random=["num", "num"], listfind=["any", "list"], listrank=["list"], sqrt=["num"], listget=["idx", "nvar"], tocode=["char"], pow=["num", "small"]),
    "text": dict(strcat=["alist"], strget=["idx", "text"], strgetlast=["text"], tochar=["code"], listlines=["tlist"], listcsv=["list"], listjson=["list"]),
    "bool": dict(gt=["num", "num"], ge=["num", "num"], lt=["num", "num"], le=["num", "num"], eq=["any", "any"], ne=["any", "any"], listcontains=["list", "any"], listisempty=["list"], same=["any", "any"]),
    "list": dict(list=["any", "any"], range=["bnd", "bnd"], listcons=["any", "list"], listcdr=["list"], listrev=["list"], listflatten=["list"], copylist=["list"], listdims=["list"], sub=["list", "num"], listcat=["llist"]),
}
class Gen:
    def __init__(self, rng, stmts, exprs=None, labels=0, mism=0.03, types=("num", "num", "text", "bool", "list"), loopmax=3):
        self.r, self.p = rng, Proj(rng, labels)
        self.stmts, self.exprs, self.mism, self.types, self.loopmax = stmts, exprs, mism, types, loopmax
        self.cnt = 0
        self.sprites = []
        self.msgs = ["m1", "m2", "m3"]
        self.extra = {}       # type -> list of functions(gen, scope, depth) -> node
        self.texts = TEXTS
    def name(self, pre="v"):
        self.cnt += 1
        return pre + str(self.cnt)
    def pick(self, w):
        ks = list(w)
        return self.r.choices(ks, [w[k] for k in ks])[0]
    def litval(self, ty):
        r = self.r
        if ty == "num": return py(r.choice(NUMS))
        if ty == "text": return txt(r.choice(self.texts))
        if ty == "bool": return boo(r.random() < 0.5)
        if ty == "list": return lst(*[self.litval(r.choice(["num", "num", "text"])) for _ in range(r.randint(0, 4))])
        if ty == "nlist": return lst(*[self.litval("num") for _ in range(r.randint(1, 4))])
        return self.litval(r.choice(["num", "text", "bool", "list"]))
    def ok(self, op): return self.exprs is None or op in self.exprs
    def expr(self, ty, d, sc):
        r, p = self.r, self.p
        if r.random() < self.mism and ty in ("num", "text", "bool", "list", "any"): ty = r.choice(["num", "text", "bool", "list"])
        if ty == "any": ty = r.choice(self.types)
        if ty == "idx": return p.lit(r.choice([1, 1, 2, 2, 3])) if d <= 0 or r.random() < .7 else self.expr("num", d - 1, sc)
        if ty == "bnd": return p.lit(r.choice([0, 1, 3, -2, 5, (1, 1), (7, 1), (5, 2)]))
        if ty == "small": return p.lit(r.choice([0, 1, 2, 3]))
        if ty == "code": return p.lit(r.choice([65, 97, 48, 233, 32]))
        if ty == "char": return p.lit(r.choice(["A", "z", "0", "\u00e9"]))
        if ty in ("nlist", "nlist1"): return p.n("list", *[self.expr("num", d - 1, sc) for _ in range(r.randint(1 if ty == "nlist1" else 0, 3))])
        if ty == "alist": return p.n("list", *[self.expr("any", d - 1, sc) for _ in range(r.randint(0, 3))])
        if ty == "tlist": return p.n("list", *[self.expr(r.choice(["num", "text"]), d - 1, sc) for _ in range(r.randint(0, 3))])
        if ty == "llist": return p.n("list", *[self.expr("list", d - 1, sc) for _ in range(r.randint(0, 2))])
        vs = [v for v, t in sc.vars.items() if t == ty or (ty in ("num", "text", "bool", "list") and t == "any")]
        if ty == "nvar":
            vs = [v for v, t in sc.vars.items() if t == "list"]
            return p.var(r.choice(vs)) if vs else p.lit([1, 2, 3])
        if d <= 0 or r.random() < .25:
            if vs and r.random() < .65: return p.var(r.choice(vs))
            return p.n("lit", v=self.litval(ty))
        ex = self.extra.get(ty, [])
        if ex and r.random() < .35:
            e = r.choice(ex)(self, sc, d)
            if e is not None: return e
        if r.random() < .08 and self.ok("ifexpr"): return p.n("ifexpr", self.expr("bool", d - 1, sc), self.expr(ty, d - 1, sc), self.expr(ty, d - 1, sc))
        if ty == "bool" and r.random() < .3:
            o = r.choice(["and", "or", "not"])
            return p.n(o, *[self.expr("bool", d - 1, sc) for _ in range(1 if o == "not" else 2)])
        fs = [f for f in sc.fns if f[2] == ty]
        if fs and r.random() < .25: return self.call(r.choice(fs), d, sc)
        ops = [o for o in EXPR.get(ty, {}) if self.ok(o)]
        if not ops: return p.var(r.choice(vs)) if vs else p.n("lit", v=self.litval(ty))
        o = r.choice(ops)
        return p.n(o, *[self.expr(t, d - 1, sc) for t in EXPR[ty][o]])
    def call(self, f, d, sc, stmt=False):
        name, params, ret, up = f
        args, ups = [], []
        for q, t in params:
            if q in up:
                v = self.name("u")
                ups.append(v)
                args.append(self.p.lit(v))
                if stmt: sc.vars[v] = "num"
            else: args.append(self.expr(t, d - 1, sc))
        return self.p.n("scallfn" if stmt else "callfn", *args, s=[name] + ups)
    def closure(self, sc, params, body, caps=None):
        caps = [v for v in sc.vars] if caps is None else caps
        return self.p.n("closure", body, s=list(params) + [c for c in caps if c not in params], v={"n": len(params)})
    def rclosure(self, sc, params, ret, d):
        """closure returning an expression"""
        s2 = sc.sub()
        for q, t in params: s2.vars[q] = t
        st = []
        if self.r.random() < .3 and "assign" in self.stmts: st.append(self.stmt(0, s2.sub(loop=9, warp=True)))
        st.append(self.p.n("return", self.expr(ret, d - 1, s2)))
        return self.closure(sc, [q for q, _ in params], self.p.block(*st))
    def body(self, d, sc, n=None):
        n = n or self.r.randint(1, 3)
        return self.p.block(*[self.stmt(d, sc) for _ in range(n)])
    def stmt(self, d, sc):
        for _ in range(20):
            k = self.pick(self.stmts)
            f = getattr(self, "s_" + k)
            if k in NEST and (d <= 0 or sc.loop > 2): continue
            if k in UNBOUND and (sc.warp or sc.loop > 8): continue
            s = f(d, sc)
            if s is not None: return s
        return self.p.says("nop")
    def wvar(self, sc, ty=None):
        vs = [v for v, t in sc.vars.items() if (ty is None or t == ty) and not v.startswith("i_")]
        return self.r.choice(vs) if vs else None
    def s_assign(self, d, sc):
        v = self.wvar(sc)
        return v and self.p.set(v, self.expr(sc.vars[v] if sc.vars[v] in ("num", "text", "bool", "list") else "any", 2, sc))
    def s_addassign(self, d, sc):
        v = self.wvar(sc, "num")
        return v and self.p.n("addassign", self.expr("num", 1, sc), s=[v])
    def s_say(self, d, sc): return self.p.n("say", self.expr("any", 2, sc))
    def s_tag(self, d, sc): return self.p.n("say", self.p.n("strcat", self.p.n("list", self.p.lit(self.name("t")), self.expr("num", 1, sc))))
    def s_mark(self, d, sc): return self.p.says(self.name("t"))
    def s_locals(self, d, sc):
        v = self.name("l") if self.r.random() < .7 or not sc.vars else self.r.choice(list(sc.vars))
        sc.vars[v] = "num"
        return self.p.n("locals", s=[v])
    def s_if(self, d, sc): return self.p.n("if", self.expr("bool", 2, sc), self.body(d - 1, sc.sub(loop=sc.loop)))
    def s_ifelse(self, d, sc): return self.p.n("ifelse", self.expr("bool", 2, sc), self.body(d - 1, sc.sub()), self.body(d - 1, sc.sub()))
    def s_repeat(self, d, sc): return self.p.n("repeat", self.p.lit(self.r.choice([0, 1, 2, 2, 3, self.loopmax])) if self.r.random() < .85 else self.expr("small", 0, sc), self.body(d - 1, sc.sub(loop=sc.loop + 1)))
    def s_until(self, d, sc):
        v = self.name("i_")
        b = self.body(d - 1, sc.sub(loop=sc.loop + 1))
        p = self.p
        w = p.n("until", p.n("gt", p.var(v), p.lit(self.r.randint(0, 2))), p.block(p.n("addassign", p.lit(1), s=[v]), *self.p.nodes[b - 1]["a"]))
        return p.n("if", p.lit(True), p.block(p.n("locals", s=[v]), w))
    def s_for(self, d, sc):
        v = self.name("i_")
        s2 = sc.sub(loop=sc.loop + 1)
        s2.vars[v] = "num"
        r = self.r
        return self.p.n("for", self.p.lit(r.choice([0, 1, 2, 3, (1, 1), -1])), self.p.lit(r.choice([1, 2, 3, (5, 1), 0])), self.body(d - 1, s2), s=[v])
    def s_foreach(self, d, sc):
        v = self.name("i_")
        s2 = sc.sub(loop=sc.loop + 1)
        s2.vars[v] = "num"
        return self.p.n("foreach", self.expr("nvar" if self.r.random() < .5 else "nlist", 1, sc), self.body(d - 1, s2), s=[v])
    def s_warp(self, d, sc): return self.p.n("warp", self.body(d - 1, sc.sub(warp=True)))
    def s_forever(self, d, sc): return self.p.n("forever", self.body(d - 1, sc.sub(loop=sc.loop + 1)))
    def s_waituntil(self, d, sc): return self.p.n("waituntil", self.expr("bool", 2, sc))
    def s_try(self, d, sc):
        v = self.r.choice(["err", "e2", self.name("e")])
        s2 = sc.sub()
        s2.vars[v] = "text"
        a = self.body(d - 1, sc.sub())
        if self.r.random() < .15: return self.p.n("try", a, self.p.block(), s=[v])
        h = self.p.block(*([self.p.n("say", self.p.var(v))] if self.r.random() < .8 else []), *self.p.nodes[self.body(d - 1, s2, 1) - 1]["a"])
        return self.p.n("try", a, h, s=[v])
    def s_throw(self, d, sc): return self.p.n("throw", self.expr("text", 1, sc))
    def s_err(self, d, sc):
        p = self.p
        return p.n("say", self.r.choice([lambda: p.n("div", p.lit(1), p.lit(0)), lambda: p.n("div", p.lit(0), p.lit(0)), lambda: p.var("nope"), lambda: p.n("sub", p.lit("q"), p.lit(1)), lambda: p.n("listget", p.lit(9), p.lit([1])), lambda: p.n("entity", s=["ghost"]), lambda: p.n("listget", p.lit((3, 1)), p.lit([1, 2]))])())
    def s_return(self, d, sc): return self.p.n("return", self.expr(sc.ret or "any", 1, sc)) if self.r.random() < .5 else None
    def s_call(self, d, sc): return self.call(self.r.choice(sc.fns), 2, sc, True) if sc.fns else None
    def s_saycall(self, d, sc): return self.p.n("say", self.call(self.r.choice(sc.fns), 2, sc)) if sc.fns else None
    def s_stop(self, d, sc): return self.p.n("stop", s=[self.pick(self.stopmodes)])
    stopmodes = dict(script=3, all=1, allbut=2, others=3, block=3)
    def s_sleep(self, d, sc): return self.p.n("sleep", self.p.lit(self.r.choice([0, -1, (1, 5), (1, 4), (1, 6), (3, 6), (1, 3)])))
    def s_broadcast(self, d, sc):
        p, r = self.p, self.r
        m = p.lit(r.choice(self.msgs + ["zz"])) if r.random() < .9 else self.expr("any", 1, sc)
        if r.random() < .6 or not self.sprites: return p.n("broadcast", m, s=[r.choice(["", "wait"])])
        t = p.n("entity", s=[r.choice(self.sprites)]) if r.random() < .5 else p.n("list", *[p.n("entity", s=[r.choice(self.sprites)]) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]) if r.random() < .8 else p.n("this") if r.random() < .7 else self.expr("any", 1, sc)
        return p.n("broadcast", m, t, s=[r.choice(["", "wait"])])
    def s_fork(self, d, sc):
        return self.p.n("fork", self.closure(sc, [], self.body(d - 1, sc.sub(loop=sc.loop + 1, ret=None))))
    def s_runclo(self, d, sc):
        return self.p.n("scallclo", self.closure(sc, [], self.body(d - 1, sc.sub(loop=sc.loop + 1))))
    def s_tell(self, d, sc):
        if not self.sprites: return None
        return self.p.n("scallcloin", self.p.n("entity", s=[self.r.choice(self.sprites)]), self.closure(sc, [], self.body(d - 1, sc.sub(loop=sc.loop + 1))))
    def s_lins(self, d, sc):
        p, r = self.p, self.r
        v = self.wvar(sc, "list")
        if not v: return None
        q = p.var(v)
        i = lambda: self.expr("idx", 1, sc) if r.random() < .8 else p.n("list", p.lit(1), p.lit(r.choice([1, 2, 3])))
        k = r.choice(["listinsert", "listinsertlast", "listinsertlast", "listremove", "listremovelast", "listassign", "listassignlast", "listremoveall", "listinsertrandom", "listassignrandom"])
        if k == "listinsert": return p.n(k, self.expr("any", 1, sc), i(), q)
        if k in ("listinsertlast", "listinsertrandom"): return p.n(k, self.expr("any", 1, sc), q)
        if k == "listremove": return p.n(k, i(), q)
        if k in ("listassignlast", "listassignrandom"): return p.n(k, q, self.expr("any", 1, sc))
        if k == "listassign": return p.n(k, i(), q, self.expr("any", 1, sc))
        return p.n(k, q)
    def s_ask(self, d, sc): return self.p.n("ask", self.expr("text", 1, sc))
    def s_rpc(self, d, sc):
        if self.r.random() < .4: return self.p.n("srpc", *[self.expr("any", 1, sc) for _ in range(3)], s=["", "Svc", self.r.choice(["f", "g"]), *self.r.sample(["arg", "b", "z"], 3)])
        return self.p.n("srpc", self.expr("any", 1, sc), s=["", "Svc", self.r.choice(["f", "g"]), "arg"])
    def s_sys(self, d, sc): return self.p.n("runsys", self.p.lit(self.r.choice(["sa", "sb"])), self.expr("list", 1, sc) if self.r.random() < .9 else self.expr("any", 1, sc))
    def s_unk(self, d, sc): return self.p.n("sunknown", *[self.expr("any", 1, sc) for _ in range(self.r.randint(0, 2))], s=["blockX"])
    def s_think(self, d, sc): return self.p.n("think", self.expr("any", 1, sc))
    def s_saytimed(self, d, sc): return self.p.n(self.r.choice(["say", "think"]), self.expr("any", 1, sc), self.p.lit(self.r.choice([0, (1, 5), (1, 4)])))
    def s_netsend(self, d, sc):
        p, r = self.p, self.r
        t = p.lit(r.choice(["everyone", "role2", "everyone in room"])) if r.random() < .6 else p.lit(r.choice([["r1", "r2"], ["r1", "r2"], ["r1", "r1"], ["r2", "r1", "r2"], []])) if r.random() < .8 else self.expr("any", 1, sc)
        return p.n("netsend", self.expr("any", 2, sc), self.expr("num", 1, sc), t, s=["msgT", *r.choice([["x", "y"], ["y", "x"]])])
    def s_netreply(self, d, sc):
        p, r = self.p, self.r
        if r.random() < .4: return p.n("say", p.n("netreply", self.expr("any", 1, sc), self.expr("num", 1, sc), p.lit(r.choice(["role2", "everyone"])), s=["msgR", *r.sample(["x", "a", "z"], 2)]))
        return p.n("say", p.n("netreply", self.expr("any", 1, sc), p.lit(r.choice(["role2", "everyone"])), s=["msgR", "x"]))
    def s_reply(self, d, sc): return self.p.n("reply", self.expr("any", 2, sc))
    def s_clone(self, d, sc): return self.p.n("sclone", self.p.n("this") if self.r.random() < .6 or not self.sprites else self.p.n("entity", s=[self.r.choice(self.sprites)]))
    def s_delclone(self, d, sc): return self.p.n("deleteclone")
    def s_pause(self, d, sc): return self.p.n("pause")
    def s_watch(self, d, sc):
        v = self.wvar(sc)
        return v and self.p.n(self.r.choice(["showvar", "hidevar"]), s=[v if self.r.random() < .95 else "nope"])
    def s_resettimer(self, d, sc): return self.p.n("resettimer")
    def s_prop(self, d, sc):
        p, r = self.p, self.r
        n = lambda: self.expr("num", 1, sc) if (z := r.random()) < .6 else p.lit(r.choice([150, 300, -50, 720, 1080, 1500, -1000, 101, 100, 99, 359, 361, (1, 1), (-1, 1), 0, 256, 50])) if z < .8 else self.expr("any", 1, sc)
        k = r.choice(["setsize", "changesize", "forward", "gotoxy", "changex", "changey", "setx", "sety", "turnright", "turnleft", "setheading", "pointtowardsxy", "setpensize", "changepensize", "seteffect", "changeeffect", "setpenattr", "changepenattr", "cleareffects", "setvisible", "setpendown", "setpencolor", "penclear", "goto", "pointtowards", "stopsounds"])
        eff = ["color", "saturation", "brightness", "ghost", "fisheye", "whirl", "pixelate", "mosaic", "negative"]
        pen = ["size", "hue", "saturation", "brightness", "transparency"]
        if k in ("gotoxy", "pointtowardsxy"): return p.n(k, n(), n())
        if k in ("seteffect", "changeeffect"): return p.n(k, n(), s=[r.choice(eff)])
        if k in ("setpenattr", "changepenattr"): return p.n(k, n(), s=[r.choice(pen)])
        if k in ("setvisible", "setpendown"): return p.n(k, s=[r.choice(["true", "false"])])
        if k == "setpencolor": return p.n(k, v={"c": [r.randint(0, 255) for _ in range(3)] + [r.choice([255, 255, 0, 31, 16])]})
        if k in ("cleareffects", "penclear", "stopsounds"): return p.n(k)
        if k in ("goto", "pointtowards"):
            x = p.n("entity", s=[r.choice(self.sprites)]) if self.sprites and r.random() < .5 else p.n("list", n(), n(), *([n()] if r.random() < .1 else [])) if r.random() < .9 else self.expr("any", 1, sc)
            return p.n(k, x)
        return p.n(k, n())
    def s_media(self, d, sc):
        p, r = self.p, self.r
        k = r.choice(["setcostume", "setcostume", "nextcostume", "playsound", "playnotes", "rest"])
        c = lambda: p.lit(r.choice(["c1", "c2", "C1", "", "nope"])) if r.random() < .6 else p.n("listget", p.lit(r.choice([1, 2, 3])), p.n("costumelist")) if r.random() < .5 else p.n("costume") if r.random() < .7 else self.expr("any", 1, sc)
        q = lambda: p.lit(r.choice(["a1", "a2", "", "nope"])) if r.random() < .6 else p.n("listget", p.lit(r.choice([1, 2])), p.n("soundlist")) if r.random() < .8 else self.expr("any", 1, sc)
        if k == "setcostume": return p.n(k, c())
        if k == "nextcostume": return p.n(k)
        if k == "playsound": return p.n(k, q(), s=[r.choice(["", "wait"])])
        w = [r.choice(["", "wait"])]
        if k == "rest": return p.n(k, p.lit(r.choice([1, 0, (1, 1), -1])))
        note = lambda: p.lit(r.choice([60, 69, 0, 127, 128, 255, 256, 316, -1, (121, 1), "C4", "c#4", "Bb3", "60", "H2", "G9", "g#9", "C-1", "fs5", ""]))
        return p.n(k, note() if r.random() < .6 else p.n("list", *[note() for _ in range(r.randint(0, 3))]), p.lit(r.choice([1, (1, 1), 0, -1, "x"])), s=w)
    def s_hof(self, d, sc):
        return self.p.n("say", self.hof(self.r.choice(["map", "keep", "findfirst", "combine"]), 2, sc))
    def hof(self, k, d, sc):
        p, r = self.p, self.r
        l = self.expr("nvar" if r.random() < .6 else "nlist", 1, sc)
        a, b = self.name("a"), self.name("b")
        if k == "combine":
            f = self.rclosure(sc, [(a, "num"), (b, "num")], "num", d)
            return p.n("combine", l, f)
        f = self.rclosure(sc, [(a, "num")], "num" if k == "map" else "bool", d)
        return p.n(k, f, l)
NEST = {"if", "ifelse", "repeat", "until", "for", "foreach", "warp", "forever", "try", "fork", "runclo", "tell"}
UNBOUND = {"forever", "waituntil"}
