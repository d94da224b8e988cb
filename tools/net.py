"""Histories of the standard system: frames, waits for replies, time and service calls (specification: StdNet.tla)."""
from gen import Proj, num, txt, boo, lst, img, aud
import comp

O = lambda *m: dict(t="o", e=[list(x) for x in m])
L = lambda *e: dict(t="l", e=list(e))
NULL = dict(t="null")
NAMES = ["", "hi", "msg", "\u00e9t\u00e9", "a b", "__reply", "reply__", "message"]
WORDS = ["", "a", "hello", "12", "\u00e9", "x\ny", "say \"hi\"", "back\\slash", "{\"a\":1}", "null", "\U0001F600", "costume", "CID", "my proj@CID#vm"]
KEYS = ["a", "b", "msg", "", "k 1", "body", "\u00e9"]

def plain(r, d=0):
    """a document without markup, nor numbers JSON writes inexactly"""
    k = r.random()
    if k < .1: return NULL
    if k < .2: return boo(r.random() < .5)
    if k < .4: return num(r.choice([0, 1, -1, 7, r.randint(-10 ** 6, 10 ** 6)])) if r.random() < .7 else num(r.randint(-9999, 9999), r.randint(1, 6))
    if k < .65 or d > 2: return txt(r.choice(WORDS))
    if k < .85: return L(*[plain(r, d + 1) for _ in range(r.randint(0, 3))])
    return O(*[(k, plain(r, d + 1)) for k in r.sample(KEYS, r.randint(0, 3))])
def content(r, d=0):
    """a document as a member of a message"""
    if r.random() < .25:
        for _ in range(9):
            x = comp.pdoc(r)
            if comp.nomark_inside(x) and not comp.marked(x) and whole(x): return x
    return plain(r)
def whole(d): return d["t"] != "u" and all(whole(x) for x in d.get("e", []) if d["t"] == "l") and all(whole(x[1]) for x in d.get("e", []) if d["t"] == "o")
def simple(r, d=0):
    k = r.random()
    if k < .2: return boo(r.random() < .5)
    if k < .5: return num(r.randint(-999, 999), r.choice([0, 0, 1, 3]))
    if k < .8 or d > 1: return txt(r.choice(WORDS))
    return L(*[simple(r, d + 1) for _ in range(r.randint(0, 3))])
def members(r, f): return [[k, f(r)] for k in r.sample(KEYS, r.randint(0, 4))]

def frame(r, waits):
    """a frame from the server, mostly a proper one"""
    k = r.random()
    rid = lambda: dict(t="rid", n=r.choice(waits)) if waits and r.random() < .85 else dict(t="rid", n=r.randint(1, 9))
    if k < .4 and waits: # a reply
        co = O(("body", plain(r)), *members(r, plain)[:1]) if r.random() < .9 else O(*[x for x in members(r, plain) if x[0] != "body"])
        f = [["type", txt("message")], ["msgType", txt("__reply__")], ["content", co], ["requestId", rid()]]
        if r.random() < .5: f.append(["srcId", txt("someone@x")])
    else:
        f = [["type", txt("message")], ["msgType", txt(r.choice(NAMES))], ["content", O(*members(r, content))]]
        if r.random() < .5: f += [["requestId", txt(r.choice(["r1", "", "\u00e9", "0"])) if r.random() < .9 else rid()], ["srcId", txt(r.choice(["a@b", "other", ""]))]]
        if r.random() < .3: f.append(["dstId", L(txt("x"))])
    m = r.random()
    if m < .12: f.pop(r.randrange(len(f)))
    elif m < .2: f[r.randrange(len(f))][1] = r.choice([NULL, num(1), boo(True), txt("x"), L(), O(), L(txt("message"))])
    elif m < .25: f[0][1] = txt(r.choice(["ping2", "Message", "reply", "", "unknown"]))
    elif m < .3: i = r.randrange(len(f)); f.insert(r.randint(0, len(f)), [f[i][0], r.choice([f[i][1], txt("y"), NULL])])
    r.shuffle(f)
    # a repeated member with a wait's name inside could not be told apart
    return dict(o="srv", f="doc", d=dict(t="o", e=f))
RAW = ["", "{", "null", "[]", "[1,2]", "\"message\"", "12", "{\"type\":\"message\"", "{'type':'message'}", "{\"type\":\"message\",\"msgType\":\"a\",\"content\":{}} x", "true", "{\"a\":}", "\u00e9", "{\"type\":\"message\",\"msgType\":\"a\",\"content\":{\"x\":1e999}}"]
def junk(r): return dict(o="srv", f=r.choice(["raw", "raw", "raw", "bin", "ping"]), d=r.choice(RAW))
def send(r, w):
    to = [r.choice(["a", "everyone in room", "b@c", "", "everyone in room ", "others in room"]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return dict(o="send", type=r.choice(NAMES + ["__reply__"]), v=members(r, plain), to=to, w=w)
END = [dict(o="sync"), dict(o="flush")]

def history(r):
    ops, n, open_ = [], 0, []
    t0 = 0
    when = []
    mix = r.choice([dict(send=3, wait=3, frame=6, recv=4, poll=6, sync=3, tick=2), dict(send=1, wait=5, frame=8, recv=1, poll=9, sync=4, tick=5), dict(send=1, wait=1, frame=9, recv=8, poll=2, sync=2, tick=1)])
    pol = r.choice([[1, 5, 700, 800], [1499, 1501, 3000], [400, 1101, 250]])
    for _ in range(r.randint(4, 34)):
        k = r.choices(list(mix) + ["junk", "inject", "reply", "update", "flush"], list(mix.values()) + [1, 1, 1, 1, 1])[0]
        if k == "send": ops.append(send(r, False))
        elif k == "wait" and n < 6: ops.append(send(r, True)); n += 1; when.append(t0)
        elif k == "frame":
            for _ in range(r.choice([1, 1, 1, 2, 4])): ops.append(frame(r, list(range(1, n + 1))))
        elif k == "junk": ops.append(junk(r))
        elif k == "recv":
            for _ in range(r.choice([1, 1, 2])): ops.append(dict(o="recv"))
        elif k == "poll" and n: ops.append(dict(o="poll", k=r.randint(1, n)))
        elif k == "sync": ops.append(dict(o="sync"))
        elif k == "tick": ops.append(dict(o="tick", ms=r.choice(pol))); t0 += ops[-1]["ms"]
        elif k == "inject": ops.append(dict(o="sync")); ops.append(dict(o="inject", type=r.choice(NAMES), v=members(r, simple)))
        elif k == "reply": ops.append(dict(o="reply", src=r.choice(["a@b", "", "x"]), req=r.choice(["r1", "", "r 2"]), v=plain(r)))
        elif k == "update": ops.append(dict(o="update"))
        elif k == "flush": ops.append(dict(o="flush"))
    ops += [dict(o="sync")] + [dict(o="recv") for _ in range(3)] + [dict(o="poll", k=i) for i in range(1, n + 1)] + [dict(o="flush")]
    return ops if exact(ops, 0) else history(r)
def exact(ops, p):
    """no reading of the clock may fall on a timeout exactly, by any way the clock can be read"""
    times, t = {0}, 0
    for o in ops:
        if o["o"] == "tick": t += o["ms"]; times.add(t)
    return not any(b - a == 1500 for a in times for b in times)
def net_case(r):
    return dict(kind="net", prec=r.choice([0, 0, 1, 2, 3]), ops=([dict(o="boot")] if r.random() < .1 else []) + history(r), obs="all")

# ------------------------------------------------------------------ projects whose scripts call services
def arg(r, p):
    """a value of a project, as written in it and as it is when plain"""
    k = r.random()
    if k < .15:
        n = "pic%d" % len(p.globals)
        cx = (r.randint(-5, 5), (r.choice([-3, 1, 7]), 1)) if r.random() < .5 else None
        a, b = img(n, cx), dict(t="i", i=n, c=list(n.encode()), cx=[num(cx[0]), num(cx[1])] if cx else [])
    elif k < .22: a, b = aud("snd"), dict(t="au", au="snd", c=list(b"snd"))
    else:
        b = simple(r)
        a = lit(b)
    g = "g%d" % len(p.globals)
    p.glob(g, a)
    return p.var(g), b
def lit(v): return lst(*[lit(x) for x in v["e"]]) if v["t"] == "l" else v
def call(r, p, tag, rpc):
    host = r.choice(["", "", "", "", "alt", "dead"]) if r.random() < .5 else ""
    k = r.random()
    c = dict(n=tag, host=host, svc=r.choice(["Svc", "Maps", "PublicRoles"]), rpc=rpc, args=[], bad=False)
    if k < .08: c.update(svc="Hooked")
    elif k < .14: c.update(svc="PublicRoles", rpc="getPublicRoleId")
    nodes = []
    if c["rpc"] == rpc or r.random() < .3:
        for nm in r.sample(["a", "b", "c d", "city", "z"], r.choice([0, 1, 1, 2, 3])):
            x, b = arg(r, p)
            nodes.append(x)
            c["args"].append([nm, b])
    if c["rpc"] != rpc and c["args"]: c["rpc"] = rpc # not the one answered inside
    if r.random() < .07 and c["svc"] != "Hooked" and c["rpc"] == rpc:
        nodes.append(p.n("closure", p.block(p.says(1)), v=num(0)) if r.random() < .5 else p.n("this"))
        c["args"].append(["bad", txt("")])
        c["bad"] = True
    where = {"": "", "alt": "BASE/alt", "dead": "http://127.0.0.1:1"}[host]
    return c, p.n("rpc", *nodes, s=[where, c["svc"], c["rpc"]] + [a[0] for a in c["args"]])
def answer(r, rpc):
    k = r.random()
    a = dict(rpc=rpc, status=200, ctype=[], doc=[], body=[], txt=[], cut=False)
    if r.random() < .6: a["ctype"] = [r.choice(["application/json", "text/plain", "application/json; charset=utf-8", "APPLICATION/JSON", "text/html", ""])]
    if k < .45:
        a["doc"] = [content(r)]
    elif k < .55: t = r.choice(["hello", "not json {", "", "caf\u00e9", "{\"a\":", "tru"]); a["txt"] = [t]; a["body"] = list(t.encode())
    elif k < .6: a["body"] = r.choice([[0xff, 0xfe], [0x80], [0xc3, 0x28]])
    elif k < .72:
        t = r.choice(["it broke", "", "\u00e9", "{\"error\":1}"]); a["txt"] = [t]; a["body"] = list(t.encode())
        a["status"] = r.choice([400, 404, 500, 503, 300, 418])
        if r.random() < .2: a["ctype"] = ["image/png"]
    elif k < .76: a["status"] = 500; a["body"] = [0xff, 1]
    elif k < .9: a["body"] = [r.randint(0, 255) for _ in range(r.randint(0, 9))]; a["ctype"] = [r.choice(["image/png", "Image/JPEG", "audio/mpeg", "AUDIO/wav", "x-image/y", "image/svg+xml; charset=utf-8", "video/audio/x"])]
    elif k < .94: a["status"] = r.choice([201, 202, 299]); a["doc"] = [plain(r)]
    else: a["cut"] = True; a["body"] = list(b"123"); a["txt"] = ["123"]
    return a
def moves(r, p):
    """commands which lend the host sprites and lists, or are not done by it"""
    return r.choice([lambda: p.n("goto", p.n("this")), lambda: p.n("goto", p.var("pos")), lambda: p.n("goto", p.n("entity", s=["other"])), lambda: p.n("pointtowards", p.n("entity", s=["other"])),
        lambda: p.n("pointtowards", p.var("pos")), lambda: p.set("mine", p.n("this")), lambda: p.set("mine", p.n("entity", s=["other"])), lambda: p.set("mine", p.n("clone", p.n("this"))), lambda: p.set("mine", p.var("pos")),
        lambda: p.n("goto", p.var("mine")), lambda: p.n("forward", p.lit(1)), lambda: p.n("gotoxy", p.lit(1), p.lit(2)), lambda: p.n("scallcloin", p.n("entity", s=["other"]), p.n("closure", p.block(p.set("mine", p.n("this")), p.n("forward", p.lit(2))), v=num(0)))])()
def quiet(p, n): return p.n("try", p.block(n), p.block(p.set("mine", p.var("err"))), s=["err"])
def prog(r):
    p = Proj(r)
    p.glob("pos", [3, 4])
    e = p.ent("s", fields=[["mine", num(0)]])
    p.ent("other", fields=[["mine", num(0)]])
    p.script(e, ["clone"], *[quiet(p, moves(r, p)) for _ in range(2)])
    soft = r.random() < .6
    scripts, pend = [], []
    for k in range(1, r.choice([1, 1, 2, 3, 4]) + 1):
        cs, st = [], []
        for i in range(r.randint(1, 4)):
            c, n = call(r, p, 100 * k + i, "r%d_%d" % (k, i))
            cs.append(c)
            if r.random() < .4: st.append(quiet(p, moves(r, p)))
            if soft: st.append(p.n("say", p.n("list", p.lit(c["n"]), n, p.n("rpcerror"))))
            else: st.append(p.n("try", p.block(p.n("say", p.n("list", p.lit(c["n"]), n))), p.block(p.n("say", p.n("list", p.lit(c["n"])))), s=["err"]))
        p.script(e, ["flag"], *st)
        scripts.append(cs)
        sent = [c["rpc"] for c in cs if not (c["svc"] == "Hooked" or (c["svc"] == "PublicRoles" and c["rpc"] == "getPublicRoleId" and not c["args"]) or c["bad"] or c["host"] == "dead")]
        if sent: pend.append(sent)
    order = []
    while pend:
        q = r.choice(pend)
        order.append(answer(r, q.pop(0)))
        if not q: pend.remove(q)
    return dict(o="prog", role=dict(globals=p.globals, funcs=p.funcs, entities=p.ents), nodes=p.nodes, soft=soft, scripts=scripts, order=order)
def prog_case(r):
    ops = [prog(r) for _ in range(r.choice([1, 1, 2]))]
    return dict(kind="net", prec=0, ops=ops, obs="all")
