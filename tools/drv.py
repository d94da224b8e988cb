"""Running cases: build the harness, execute on the real VM, validate the recording with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, resource, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, HARNESS, WORK = VERIF + "/spec", VERIF + "/harness", VERIF + "/work"
VH = HARNESS + "/target/debug/vh"
SYS = VERIF + "/sys"
VS = SYS + "/target/debug/vs"
CMD = VERIF + "/cmd"
VN = CMD + "/target/debug/vn"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

class Broken(Exception): pass

def build(dir=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
    e.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=dir or HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise Broken("harness build failed:\n" + p.stdout.decode()[-4000:])

def _lim(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def vh(mode, inp, out, threads, timeout, gb=24):
    try:
        p = subprocess.run([VS if mode == "net" else VH, mode, inp, out, str(threads)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=_lim(gb))
        return p.returncode
    except subprocess.TimeoutExpired: return "timeout"

def execute(cases, tmp, mode="run", timeout=None):
    """outputs by id; a case which kills or hangs the process gets compile="crash" """
    timeout = timeout or max(60, len(cases) * .05)
    inp, out = tmp + "/c.ndjson", tmp + "/o.ndjson"
    with open(inp, "w") as f:
        for c in cases: f.write(json.dumps(c, ensure_ascii=False) + "\n")
    rc = vh(mode, inp, out, NCPU, timeout)
    if rc == 2: raise Broken("harness usage error")
    res = {}
    def take(path):
        if not os.path.exists(path): return
        for l in open(path, encoding="utf-8"):
            if not l.endswith("\n"): continue
            try: o = json.loads(l)
            except ValueError: continue
            res[o["id"]] = (o, l.rstrip("\n"))
    take(out)
    bad = [c for c in cases if c["id"] not in res]
    crashed = 0
    for c in bad:
        if crashed >= 12:
            res[c["id"]] = None
            continue
        ci, co = tmp + "/c1.ndjson", tmp + "/o1.ndjson"
        if os.path.exists(co): os.remove(co)
        open(ci, "w").write(json.dumps(c, ensure_ascii=False) + "\n")
        rc1 = vh(mode, ci, co, 1, 20, 8)
        take(co)
        if c["id"] not in res:
            crashed += 1
            o = {"id": c["id"], "compile": "hang" if rc1 == "timeout" else "crash", "msg": "the process %s" % ("did not finish" if rc1 == "timeout" else "died (status %s)" % rc1), "snap0": [], "turns": []}
            res[c["id"]] = (o, json.dumps(o))
    return res, crashed

def tlc(module, cfg, tmp, env=None, workers=1, mem=None, extra=(), timeout=800, cwd=None):
    """runs TLC; returns (rc, output)"""
    meta = tempfile.mkdtemp(dir=tmp, prefix="tlc")
    cmd = ["java", "-Xss512m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + meta]
    cmd += ["-Xmx%dm" % (mem or 3000), "-cp", JARS, "tlc2.TLC", "-deadlock", "-workers", str(workers), "-metadir", meta + "/m", "-noGenerateSpecTE", "-config", cfg, *extra, module]
    p = subprocess.Popen(cmd, cwd=cwd or SPEC, env=dict(os.environ, LC_ALL="C.UTF-8", **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p, meta

def unq(s): return re.sub(r"\\(.)", lambda m: {"t": "\t", "n": "\n", "r": "\r"}.get(m.group(1), m.group(1)), s)

def _round(shards, cases, res, tmp, end, module):
    """one TLC per shard, together. -> [(shard, text)]"""
    procs = []
    for k, sh in enumerate(shards):
        fc, ft = "%s/s%d.c" % (tmp, k), "%s/s%d.t" % (tmp, k)
        with open(fc, "w", encoding="utf-8") as f:
            for i in sh: f.write(json.dumps(cases[i], ensure_ascii=False) + "\n")
        with open(ft, "w", encoding="utf-8") as f:
            for i in sh: f.write(res[cases[i]["id"]][1] + "\n")
        fo = open("%s/s%d.out" % (tmp, k), "wb")
        p, meta = tlc(module + ".tla", module + ".cfg", tmp, {"FILE_CASES": fc, "FILE_TRACE": ft})
        procs.append((sh, p, fo, meta))
    def pump(p, fo):
        for chunk in iter(lambda: p.stdout.read(65536), b""): fo.write(chunk)
        fo.close()
    ths = [threading.Thread(target=pump, args=(p, fo)) for _, p, fo, _ in procs]
    for t in ths: t.start()
    out = []
    for (sh, p, fo, meta), t in zip(procs, ths):
        late = False
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); late = True
        t.join()
        shutil.rmtree(meta, ignore_errors=True)
        out.append((sh, open(fo.name, encoding="utf-8", errors="replace").read() + ("\nTLC timed out" if late else "")))
    return out

def validate(cases, res, tmp, timeout=800, module="Trace"):
    """TLC over the recordings, in NCPU shards. -> (verdicts {id: (status, turn, why)}, stats)
    If TLC cannot evaluate a case, the others of its shard are taken up again without it."""
    idx = [i for i, c in enumerate(cases) if res.get(c["id"])]
    shards = [s for s in (idx[k::NCPU] for k in range(NCPU)) if s]
    end = time.time() + timeout
    verd, stats, errs = {}, dict(generated=0, distinct=0, depth=0, skips=[]), []
    for rnd in range(6):
        again = []
        for sh, txt in _round(shards, cases, res, tmp, end, module):
            for l in txt.splitlines():
                if l.startswith('"RES\\t'):
                    f = unq(l.strip()[1:-1]).split("\t", 4)
                    verd[cases[sh[int(f[2]) - 1]]["id"]] = (f[1], int(f[3]), f[4])
                elif l.startswith('"SKIP\\t'):
                    f = unq(l.strip()[1:-1]).split("\t", 3)
                    stats["skips"].append((cases[sh[int(f[1]) - 1]]["id"], int(f[2]), f[3]))
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
            if m: stats["generated"] += int(m.group(1)); stats["distinct"] += int(m.group(2))
            m = re.search(r"depth of the complete state graph search is (\d+)", txt)
            if m: stats["depth"] = max(stats["depth"], int(m.group(1)))
            miss = [i for i in sh if cases[i]["id"] not in verd]
            if not miss: continue
            errs.append("TLC: missing %s\n%s" % ([cases[i]["id"] for i in miss[:10]], "\n".join(x for x in txt.splitlines() if not x.startswith('"RES'))[-3000:]))
            # the culprit is named in the last state TLC prints
            c, ph, o = re.findall(r"cid = (\d+)", txt), re.findall(r'ph = "(\w+)"', txt), re.findall(r'\bout \|-> "(\w*)"', txt)
            if c and "TLC timed out" not in txt:
                i = sh[int(c[-1]) - 1]
                if i in miss:
                    miss.remove(i)
                    if ph and ph[-1] == "run" and o and o[-1]: # not the specification, but the record: it has a form no behaviour has
                        tn = re.findall(r"tn = (\d+)", txt)
                        why = re.findall(r"(?m)^(?:TLC threw.*|Error: .*|Attempted .*|.*tempted to .*)$", txt)
                        verd[cases[i]["id"]] = ("bad", int(tn[-1]) if tn else 0, "the record cannot be compared with what the specification expects: " + " ".join(why)[:400])
                    again += miss
        if not again or end - time.time() < 15: break
        shards = [s for s in (again[k::NCPU] for k in range(NCPU)) if s]
    return verd, stats, errs
