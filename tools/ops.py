"""Operator tables: every operator on every pair (triple) of a pool of values, a few evaluations per case, each in a turn of its own."""
import random, itertools
from gen import Proj, num, txt, boo, lst, ref, img, aud, py

def N(x): return num(*x) if isinstance(x, tuple) else num(x) if isinstance(x, int) else {"t": "u", "f": repr(x)}
NUMS = [0, 1, -1, 2, 3, -3, 4, 5, 10, 12, 100, 360, 90, 45, -90, 30, 1000000, 536870911, 65, 233, 128512, 55296, 1114112, (1, 1), (-5, 1), (1, 2), (31, 2), (-1, 2), (3, 1), (9, 1), 0.1, -0.1, 1e-7, 1e15, -1e15, 1e300]
TEXTS = ["", " ", "abc", "ABC", "abd", "3", " 4 ", "-2.5", "+5", "0x1f", "0X1F", "0b11", "0o17", "0O17", "0B101", "1e2", "1E-2", ".5", "5.", "1_0", "inf", "-inf", "infinity", "NaN", "nan", "true", "false", "-0", "\u00e9", "\u00c9", "\u00df", "SS", "x\ny", "\t7\n", "0x", "0x-1", "0b+1", "0x1.8", "--1", "1e400", "12abc", "e5", "\U0001f600", "a b", "a,b\nc,d", "[1,2]", "\"", "'", "3.0", "03", "1e3000", "0.1", "100000000000000000000", "z"]
LONG = ["hello world", "\u0915\u0903a\u0903 \u0903\u0915\n\u0903", "\u1100\u1161\u1161\u1100\u1100 \u1161\u1100", "\u0915\u0301\u0903\U0001F44D\u0903\U0001F3FD\u200d\U0001F44D", "one  two\tthree\nfour", "a\u0301b\r\nc", "\U0001F468\u200d\U0001F469\u200d\U0001F467!", "\U0001F1EB\U0001F1F7\U0001F44D\U0001F3FD", "mississippi", ",a,,b,", "a\r\nb\nc\rd", "x\ty\t\tz", " lead and trail ", "\u00e9\u00c9\u00df\u03a9", "1,2\n3,4", "\"a,b\",c\n\"d\"\"e\",f", "{\"k\": [1, 2.5, \"t\", true], \"m\": {}}", "[1, [2, [3]], \"x\"]", "[null]", "[1,", "\"just text\"", "  7  ", "\n\n", "aaa"]
def L(*xs, id=None): return lst(*[x if isinstance(x, dict) else N(x) if isinstance(x, (float, tuple)) or (isinstance(x, int) and not isinstance(x, bool)) else py(x) for x in xs], id=id)
LISTS = [L(), L(1), L("a"), L(""), L(1, 2, 3), L("1", "2"), L("B", "a", "C"), L(True), L(True, False), L(L()), L(L(), L()), L(L(1, 2), L(3, 4)), L(L(1), L(2, 3), L()), L(1, L(2, L(3, L()))), L(L(1, "x"), "y"), L("x", L(1)),
         L(0), L((1, 1), -1), L(4, 3, 2, 1), L(1, 1, 1), L("abc", 12, True), L(L(L(1, 2), L(3, 4)), L(L(5, 6), L(7, 8))), L(3, "3", " 3 "), L(0.1, 0.1), L("a,b", "c\"d", "e\nf"), L("a", "A"), L(2, 2), L(1, 2, 3, 4, 5, 6), L(-1, 1), L(100), L("zzz", "\U0001f600"), L("a\rb", "c\r\n"), L(L("\r", 1), L("x\"\r"))]
DEEP = [L(L(1, 2), L(3, 4), L(5, 6), L(7, 8)), L(L(1, 2), L(3), L(4, 5), L("a", "b"), L(True)), L(L(1), L(2, 3), L(), L(4)), L(L(1, 2), L(L(3), L(4)), L(5), L(6, 7)), L(*range(1, 81)), L(L(*range(1, 70)), L(*range(70, 79)), L(1)), L(L(*range(1, 41)), L(*range(1, 6)))]
SHARED = [lambda i: L(L(1, 2, id=i), ref(i)), lambda i: L(1, ref(i), id=i), lambda i: L(L(ref(i), 2), id=i), lambda i: L(L(3, id=i), L(ref(i)), 5), lambda i: L(ref(i), ref(i), id=i), lambda i: L(L(1, ref(i)), id=i)]
MEDIA = [img("im"), aud("so")]
IDX = [0, 1, 2, 3, 4, -1, (3, 1), "2", "x", "", True, "1.0", 1e300]
IDXL = [L(), L(1), L(1, 2), L(2, 1), L(3, 1, 3), L(L(1), 2), L(0), L(1, 9), L("x"), L((1, 1)), L(1, L()), L(4), L("1", 2), L(True)]

def V(x): # operand: an initial value, or ("this",) / ("closure",)
    return x if isinstance(x, (dict, tuple)) and not (isinstance(x, tuple) and isinstance(x[0], int)) else L(x)["e"][0]
def pool(*parts): return [p for q in parts for p in q]
SC = [V(x) for x in NUMS + TEXTS] + [boo(True), boo(False)]
ODD = MEDIA + [("this",), ("closure",), ("other",)]
FEWN = [V(x) for x in (0, 1, -1, 2, (1, 1), -3, 10, 0.1)]
FEWT = [V(x) for x in ("", "abc", "3", " 4 ", "0x1f", "true", "inf", "1e2", "B")]
FEW = FEWN + FEWT + [boo(True), boo(False)]
FEWL = [LISTS[i] for i in (0, 1, 2, 4, 5, 11, 12, 13, 14, 17, 18)]
MID = [V(x) for x in NUMS[:12] + NUMS[21:31]] + [V(x) for x in TEXTS] + [boo(True), boo(False)]
BIG = MID + LISTS + SHARED + ODD
SML = FEW + FEWL + SHARED[:3] + ODD
LST = LISTS + SHARED
IX = [V(x) for x in IDX] + IDXL

UN = ["neg", "abs", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "round", "floor", "ceil", "not"]
BIN = ["sub", "div", "pow", "mod", "log", "atan2"]
VAR2 = ["add", "mul", "min", "max"]

def t1(op, A, s=()): return [(op, s, (a,)) for a in A]
def t2(op, A, B, s=()): return [(op, s, (a, b)) for a in A for b in B]
def t3(op, A, B, C, s=()): return [(op, s, (a, b, c)) for a in A for b in B for c in C]
def T12():
    r = []
    for o in UN: r += t1(o, SC + LST + ODD)
    for o in BIN: r += t2(o, MID, FEW) + t2(o, FEW, MID) + t2(o, SML, SML) + t2(o, FEWL + SHARED, FEWL + SHARED)
    for o in ("add2", "mul2"): r += t2(o, MID, FEW) + t2(o, FEW, MID) + t2(o, SML, SML)
    for o in ("add", "mul"): r += t1(o, LST + ODD + FEW + DEEP)
    for o in ("add3", "mul3"): r += t3(o, FEW[:12], FEWN[:4] + FEWL[3:7], FEWN[:4] + FEWL[:4])
    r += t2("random", FEWL[1:], FEWL) + t2("random", FEWN, FEWN) + t2("random", [V(x) for x in (3, -2, "5")], FEW + FEWL + ODD)
    r += t2("addassign", SML, SML)
    return r
def T13():
    r = []
    cmpv = [V(x) for x in NUMS[:10] + [(1, 1), (-5, 1), 0.1, 1e300]] + [V(x) for x in TEXTS] + [boo(True), boo(False)]
    for o in ("eq", "ne", "lt", "le", "gt", "ge"):
        r += t2(o, cmpv, cmpv) + t2(o, LST, LST) + t2(o, SML, SML)
    r += t2("same", SML, SML) + t2("same", LST, LST)
    r += t1("same1", SML + LST) + t1("eq1", SML + LST) + t1("lt1", SML + LST) + t1("ge1", SML + LST)
    for o in ("min", "max"): r += t1(o, LST + ODD + FEW + DEEP)
    for o in ("min2", "max2"): r += t2(o, SML, SML) + t2(o, FEW, FEW)
    for o in ("min3", "max3"): r += t3(o, FEW, FEW[:8], FEW[6:14])
    r += t2("listfind", SML, LST) + t2("listcontains", LST, SML) + t2("listfind", LST, LST)
    r += t1("listfindself", LST)
    for ty in ("Number", "Text", "Bool", "List", "Entity", "Image", "Audio"): r += t1("typeis", FEW + FEWL + SHARED + ODD, (ty,))
    return r
def T14():
    r = []
    val = FEW[:3] + FEWL[:3] + SHARED[:1] + ODD[:1]
    tgt = LST + ODD + FEW[:4]
    r += t3("listinsert", val, IX, [LISTS[i] for i in (0, 1, 4, 11, 13)] + SHARED[:3]) + t3("listassign", IX, [LISTS[i] for i in (0, 1, 4, 11, 13)] + SHARED[:3], val)
    r += t2("listremove", IX, LST) + t2("listremove", [V(x) for x in (1, 2, "x")] + ODD, tgt)
    r += t2("listinsertlast", SML, tgt) + t2("listinsertrandom", val, tgt) + t2("listassignlast", tgt, val) + t2("listassignrandom", tgt, val)
    for o in ("listremovelast", "listremoveall"): r += t1(o, tgt)
    r += t1("insertself", LST) + t1("insertlastself", LST) + t1("removeself", LST + IDXL) + t1("assignself", LST + IDXL) + t1("insertatself", LST + IDXL) + t2("removeinner", LST, IX) + t1("assignlastself", LST)
    return r
def T15():
    r = []
    for o in ("listlen", "listisempty", "listdims", "listrank", "listrev", "listflatten", "listcdr", "listcolumns", "listlines", "listjson", "listcsv", "listgetlast", "listgetrandom", "copylist", "listcat", "combinations"):
        r += t1(o, LST + ODD + FEW + DEEP)
    r += t2("listget", IX + SHARED, LST) + t2("listget", FEW + ODD, SML)
    r += t2("listcons", SML, LST + ODD + FEW[:4]) + t2("listcat2", LST, LST) + t2("listcat2", SML, SML) + t2("combinations2", LST, FEWL + SHARED[:3] + ODD[:1])
    r += t2("range", FEWN + [V(x) for x in ("3", " 4 ", "x", -4, (1, 2), 12)], FEWN + [V(x) for x in ("3", "x", -4, (1, 2), 12)] + FEWL + ODD[:1]) + t2("range", FEWL + SHARED[:1], FEWN[:3]) + t2("range", FEWL + SHARED, FEWL + SHARED)
    r += [x for a, b in ((1e16, 1e16), (-1e16, -1e16), (1e16, 1e16 + 10), (-1e16, -1e16 - 10), (2.0 ** 53, 2.0 ** 53 + 4), (1e300, 1e300)) for x in t2("range", [V(a)], [V(b)])]
    dims = [L(), L(0), L(1), L(2), L(3), L(2, 2), L(2, 3), L(3, 2), L(2, 0), L(0, 2), L(2, 2, 2), L(1, 4), L(-1), L((1, 1)), L("2", 2), L("x"), L(True), L(L(2)), L(7)]
    r += t2("reshape", LST + FEW + ODD, dims) + t2("reshape", FEWL, FEW[:6] + ODD)
    r += t1("catself", LST) + t1("consself", LST) + t1("getself", LST + IDXL) + t1("reshapeself", LST)
    return r
def T16():
    r = []
    tx = [V(x) for x in TEXTS + LONG]
    for o in ("strlen", "strgetlast", "strgetrandom", "tochar", "tocode"): r += t1(o, tx + LST + ODD + FEWN + [V(x) for x in NUMS])
    for mode in ("letter", "word", "tab", "cr", "lf", "csv", "json"): r += t1("split", tx + FEWL + SHARED[:2] + FEWN + ODD + LISTS[-8:], (mode,))
    r += t2("splitby", tx + FEWN, [V(x) for x in ("", "a", " ", ",", "s", "ss", "aa", "\n", "\r\n", "\u0301", "b", "1", "hello world", "A")] + FEWN[:3] + FEWL[:4] + ODD[:2])
    LT = [L("a,b", "b;c"), L(L("a,b", "b,c,d"), L("xbx", ",")), L(L("a,b"), ",b", L("b")), L(",", "b"), L(",", L("b", ",")), L(L(","), L("b", ""))]
    r += t2("splitby", LT, LT) + t2("strget", IDXL + [L(L(1, 2), L(2)), L(L(2), 1)], LT + FEWL[3:7])
    r += t2("splitby", FEWL + SHARED[:2] + ODD, [V(x) for x in ("", "a", 1)])
    r += t2("strget", IX + SHARED[:2], tx + FEWN) + t2("strget", FEW, FEWL + SHARED[:2] + ODD)
    r += t1("strcat", LST + ODD + FEW) + t2("strcat2", SML, SML) + t2("strcat2", [V(x) for x in NUMS], [V(x) for x in ("a", 1, "")]) + t2("strcat2", tx, [V("|")]) + t2("strcat2", LST, [V("|")])
    return r
TABLES = dict(C12=T12, C13=T13, C14=T14, C15=T15, C16=T16)
CMD = {"listinsert", "listinsertlast", "listinsertrandom", "listremove", "listremovelast", "listremoveall", "listassign", "listassignlast", "listassignrandom"}

def build(evals, seed, per=None):
    """one case holding these evaluations"""
    r = random.Random(seed)
    p = Proj(r)
    e = p.ent("s1")
    p.ent("s2")
    turns = []
    ids = itertools.count(1)
    for k, (op, s, args) in enumerate(evals):
        names, pre = [], []
        for j, a in enumerate(args):
            nm = "v%d_%d" % (k, j)
            names.append(nm)
            if isinstance(a, tuple):
                p.glob(nm, 0)
                pre.append(p.set(nm, p.n("this") if a[0] == "this" else p.n("entity", s=["s2"]) if a[0] == "other" else p.n("closure", p.block(p.n("return", p.lit(1))), v=num(0))))
            else: p.glob(nm, a(next(ids)) if callable(a) else a)
        rn = "r%d" % k
        p.glob(rn, "unset")
        v = lambda j: p.var(names[j])
        st = None
        if op in CMD: st = p.n(op, *[v(j) for j in range(len(args))])
        elif op == "insertself": st = p.n("listinsert", v(0), p.lit(1), v(0))
        elif op == "insertlastself": st = p.n("listinsertlast", v(0), v(0))
        elif op == "removeself": st = p.n("listremove", v(0), v(0))
        elif op == "assignself": st = p.n("listassign", v(0), v(0), p.lit("new"))
        elif op == "insertatself": st = p.n("listinsert", p.lit("new"), v(0), v(0))
        elif op == "assignlastself": st = p.n("listassignlast", v(0), v(0))
        elif op == "removeinner": st = p.n("listremove", v(1), p.n("listget", p.lit(1), v(0)))
        elif op == "addassign": st = p.n("addassign", v(1), s=[names[0]])
        elif op[-1] == "2" and op not in ("atan2",): x = p.n(op[:-1], p.n("list", v(0), v(1)))
        elif op[-1] == "3": x = p.n(op[:-1], p.n("list", v(0), v(1), v(2)))
        elif op in ("same1", "eq1", "lt1", "ge1"): x = p.n(op[:-1], v(0), v(0))
        elif op == "listfindself": x = p.n("listfind", v(0), v(0))
        elif op == "catself": x = p.n("listcat", p.n("list", v(0), v(0)))
        elif op == "consself": x = p.n("listcons", v(0), v(0))
        elif op == "getself": x = p.n("listget", v(0), v(0))
        elif op == "reshapeself": x = p.n("reshape", v(0), v(0))
        elif op == "random": x = p.n("random", v(0), v(1))
        else: x = p.n(op, *[v(j) for j in range(len(args))], s=list(s))
        body = p.block(st if st is not None else p.set(rn, x), p.say(p.n("list", p.lit("="), p.var(rn), *[v(j) for j in range(len(args))])))
        h = p.block(p.say(p.n("list", p.lit("!"), p.var("e"), *[v(j) for j in range(len(args))])))
        p.script(e, ("ev", "e%d" % k), *pre, p.n("try", body, h, s=["e"]))
        turns.append(dict(t=0, **{"in": [{"k": "stop"}, {"k": "ev", "name": "e%d" % k, "args": [], "int": False, "mq": 0}]}, msg=[]))
    import fam
    c = fam.case(p, fam.env(turns=turns, gc=r.choice([0, 0, 1, 3])))
    c["env"]["rand"] = [r.randint(0, 15)]
    c["env"]["iso"] = True
    c["evals"] = [op + ("/" + s[0] if s else "") for op, s, _ in evals]
    return c
def cases(pid, seed, n=None, per=16, part=None):
    """n evaluations drawn from the table of pid (all if None), as cases"""
    t = TABLES[pid]()
    random.Random("%s/%d" % (pid, seed)).shuffle(t)
    total = len(t)
    if n: t = t[:n]
    return [build(t[i:i + per], "%s/%d/%d" % (pid, seed, i)) for i in range(0, len(t), per)], total
CHARS = None
SMALL = {"reshape", "range", "combinations", "combinations2", "reshapeself", "random"}
def rtext(r, base=""):
    global CHARS
    if CHARS is None:
        import json, os
        CHARS = [c for c, _ in json.load(open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/spec/chars.json"))["chars"]]
    k = r.random()
    if k < .2: return r.choice(["", " ", "-", "+", "--"]) + "".join(r.choice("0123456789.e-+xXbo_aF ") for _ in range(r.randint(1, 6)))
    if k < .35: return r.choice(["", " ", "\n", "-", "+"]) + r.choice(["%d" % r.randint(0, 5000), "%d.%d" % (r.randint(0, 99), r.choice([0, 5, 25, 75, 125])), "0x%x" % r.randint(0, 9999), "0b{:b}".format(r.randint(0, 99)), "%de%d" % (r.randint(0, 9), r.randint(0, 4))]) + r.choice(["", "", " ", "\t"])
    if k < .6 and base:
        t = list(base); i = r.randrange(len(t))
        if r.random() < .4: t[i:i + 1] = []
        else: t[i:i] = r.choice(CHARS)
        return "".join(t)
    if k < .8: return "".join(r.choice("aAbB ,\n\t\"1.") for _ in range(r.randint(0, 9)))
    return "".join(r.choice(CHARS) for _ in range(r.randint(0, 8)))
def rnum(r, small):
    k = r.random()
    if small: return num(r.randint(-5, 7)) if k < .8 else num(r.randint(-9, 9), 1)
    if k < .5: return num(r.randint(-20, 40))
    if k < .75: return num(r.randint(-400, 400), r.randint(1, 4))
    if k < .9: return num(r.choice([-1, 1]) * r.randint(0, 10 ** r.randint(3, 8)))
    return {"t": "u", "f": repr(round(r.uniform(-100, 100), r.randint(1, 4)))}
def mutate(r, a, small, depth=0):
    """another value of the same kind, or of another one"""
    if not isinstance(a, dict): return a
    k = r.random()
    if a["t"] == "n" or a["t"] == "u":
        if k < .85: return rnum(r, small)
        return txt(rtext(r)) if not small else txt(str(r.randint(-4, 9)))
    if a["t"] == "s":
        if k < .85: return txt(rtext(r, a["s"])) if not small else txt(r.choice(["", "x", "3", " 2 ", "-1", "1.5"]))
        return rnum(r, small)
    if a["t"] == "lst":
        e = [mutate(r, x, small, depth + 1) if r.random() < .5 else x for x in a["e"]]
        for _ in range(r.choice([0, 1, 1, 2])):
            q = r.random()
            if e and q < .3: e.pop(r.randrange(len(e)))
            elif len(e) < 7: e.insert(r.randint(0, len(e)), rnum(r, True) if q < .6 else txt(r.choice(["a", "B", "", "3", "1e1"])) if q < .75 else boo(q < .8) if q < .85 else lst(*[rnum(r, True) for _ in range(r.randint(0, 3))]) if depth < 2 else rnum(r, True))
        return dict({"t": "lst", "e": e}, **({"id": a["id"]} if "id" in a else {}))
    return a
def random_cases(pid, seed, n, per=16):
    """n evaluations: an entry of the table, with other operands of about the same shape"""
    t = TABLES[pid]()
    r = random.Random("random/%s/%d" % (pid, seed))
    by = {}
    for e in t: by.setdefault((e[0], tuple(e[1])), []).append(e)
    keys = sorted(by)
    ev = []
    for _ in range(n):
        op, s, args = r.choice(by[r.choice(keys)])
        ev.append((op, s, tuple(mutate(r, a, op in SMALL or (i > 0 and op == "pow")) for i, a in enumerate(args))))
    return [build(ev[i:i + per], "%s/%d/%d" % (pid, seed, i)) for i in range(0, n, per)]
if __name__ == "__main__":
    for k in TABLES: print(k, len(TABLES[k]()))
