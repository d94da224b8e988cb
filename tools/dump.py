"""Dumps of compiled projects, made by the command-line tool and judged by TLC (spec/Dump.tla)."""
import json, os, re, subprocess, tempfile, shutil, threading, queue
import comp, drv, fam, srv
def case(r):
    k = r.random()
    nr = 1 if k < .7 else r.randint(2, 3)
    names = r.sample(["myRole", "role two", "r3", "it's"], nr)
    kind = lambda: r.choice([dict(user="asks", asks=True, keys=srv.HATS), dict(user="none"), dict(user="none", disk=srv.disk(r), pauses=False)])
    roles = [srv.proj(r, n, **kind())[1] for n in names]
    role = [] if nr == 1 and r.random() < .7 else [r.choice(names)] if r.random() < .8 else [] if r.random() < .5 else [r.choice(["none such", "", "my", "MYROLE", "myRole "])]
    xml, file, bad = srv.room(r.choice(srv.NAMES), *roles), True, ""
    k = r.random()
    if k < .02: file = False
    elif k < .05: xml, bad = r.choice(srv.BAD[:3])[0], "read"
    elif k < .09: xml, bad = xml.replace("</scripts>", '<script><block s="receiveGo"></block><block collabId="item_1" s="nativeRunSyscall"><l>open</l></block></script></scripts>'), "compile"
    return dict(kind="dump", ops=[dict(o="dump", roles=names, role=role, file=file, bad=bad, xml=xml)], obs="none")
def wide(c, r):
    """adds a message with many fields, whose instruction is long"""
    lits = [i + 1 for i, n in enumerate(c["nodes"]) if n["o"] == "lit"]
    blocks = [n for n in c["nodes"] if n["o"] == "block"]
    if not lits or not blocks: return c
    k = r.choice([3, 5, 9, 30, 200, 600]) if r.random() < .94 else 3000
    for x in ("name", "text") if k == 3000 else ("name",): # the second one's strings lie far back in the data
        c["nodes"].append(dict(o="netsend", a=[r.choice(lits) for _ in range(k + 1)], s=["msg" * (r.randint(1, 9) if r.random() < .6 else 100)] + ["%d%s" % (i, x if k > 99 else "") for i in range(k)], l=""))
        b = r.choice(blocks)
        b["a"] = b["a"] + [len(c["nodes"])]
    if k == 3000: # and one closure with as many parameters, beyond the others' code
        c["nodes"] += [dict(o="block", a=[], s=[], l=""), dict(o="closure", a=[len(c["nodes"]) + 1], s=["%dpar" % i for i in range(k)], l="", v=dict(n=k)), dict(o="say", a=[len(c["nodes"]) + 2], s=[], l="")]
        b["a"] = b["a"] + [len(c["nodes"])]
    return c
def texts(c, r):
    """adds a text of any characters"""
    b = r.choice([n for n in c["nodes"] if n["o"] == "block"] or [None])
    if b:
        c["nodes"] += [dict(o="lit", a=[], s=[], l="", v=dict(t="s", s="".join(chr(r.choice([r.randint(1, 127), r.randint(32, 126), r.randint(128, 255), 0x20AC, 0x1F4A1])) for _ in range(r.randint(1, 40))))), dict(o="say", a=[len(c["nodes"]) + 1], s=[], l="")]
        b["a"] = b["a"] + [len(c["nodes"])]
    return c
def prog(c, name="r"):
    """any program, dumped through the library"""
    return dict(kind="dump", ops=[dict(o="dump", roles=[name], role=[], file=True, bad="", prog=dict(role=c["role"], nodes=c["nodes"]))], obs="none")
def any_case(r):
    if r.random() < .3: return case(r)
    c = getattr(fam, r.choice(FAMS))(r)
    return prog(texts(wide(c, r) if r.random() < .3 else c, r))
FAMS = ["C01", "C03", "C04", "C06", "C07", "C08", "C10", "C11", "C11", "C17", "C18", "C19", "C20", "C14S", "C15S", "C21S", "C26S", "C31"]
ROW = re.compile(r"^(\d{8,}|        )   ((?: [0-9a-f]{2}| {3}){10})(?:    (.*))?$", re.S)
def rows(ls):
    out = []
    for l in ls:
        m = ROW.match(l)
        if not m: return None
        out.append(dict(pos=-1 if m.group(1).isspace() else int(m.group(1)), b=m.group(2).split(), text=m.group(3) or ""))
    return out
def read(txt):
    ls = txt.split("\n")
    z = dict(form="", code=[], data=[], total=0)
    try:
        i = ls.index("", 1)
        code, rest = rows(ls[1:i]), ls[i + 1:]
        j = rest.index("", 1)
        data = rows(rest[1:j])
        m = re.match(r"^total size: (\d+)$", rest[j + 1])
        if ls[0] != "instructions:" or rest[0] != "data:" or code is None or data is None or not m or rest[j + 2:] != [""]: raise ValueError()
        z.update(code=code, data=data, total=int(m.group(1)))
    except (ValueError, IndexError): z["form"] = "not a dump: " + txt[:300]
    return z
NOTHING = dict(ok=False, code=[], data=[], at=[])
def play(tmp, cases):
    for i, c in enumerate(cases): c["id"] = i + 1
    ops = [c["ops"][0] for c in cases]
    def index(o): return 0 if not o["role"] else o["roles"].index(o["role"][0]) if o["role"][0] in o["roles"] else 0
    lib = comp.replay(tmp, comp.evals([dict(o="dumped", role=o["prog"]["role"], nodes=o["prog"]["nodes"]) if "prog" in o else dict(o="compile", xml=o["xml"], k=index(o)) for o in ops], 1))
    res, q = {}, queue.Queue()
    for c in cases: q.put(c)
    def work():
        d = tempfile.mkdtemp(dir=tmp)
        while True:
            try: c = q.get_nowait()
            except queue.Empty: break
            o, f = c["ops"][0], d + "/project.xml"
            x = lib.get(c["id"])
            x = (x[0].get("out") or [{}])[0] if x else {}
            panic = x.get("p", "the process died")
            ref = dict(NOTHING, **(x["r"] if panic == "" else {}))
            text = ref.pop("text", "")
            if "prog" in o:
                res[c["id"]] = dict(id=c["id"], p=panic, out=[dict(p="", r=dict(read(text), st=0, err="", nothing=False, ref=ref), x=[])])
                continue
            if os.path.exists(f): os.remove(f)
            if o["file"]: open(f, "w", encoding="utf-8").write(o["xml"])
            e = {k: v for k, v in os.environ.items() if k != "RUST_BACKTRACE"}
            try:
                p = subprocess.run([drv.VN, "dump", f] + (["--role", o["role"][0]] if o["role"] else []), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=e, timeout=60)
                out, r = p.stdout.decode("utf-8", "replace"), dict(st=p.returncode, err=p.stderr.decode("utf-8", "replace")[:300])
            except subprocess.TimeoutExpired: out, r = "", dict(st=-1, err="no end")
            r.update(read(out) if r["st"] == 0 else dict(form="", code=[], data=[], total=0), nothing=out == "", ref=ref)
            res[c["id"]] = dict(id=c["id"], p="", out=[dict(p="", r=r, x=[])])
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(drv.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    return {k: (v, json.dumps(v, ensure_ascii=False)) for k, v in res.items()}
