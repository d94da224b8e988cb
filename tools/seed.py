"""development: planting bugs.  Not used by any check.

mk(id, property, edits, needs, breaks, cases=..., main=...): writes /verif/seeded/<id>; edits are (file, old, new) on /repo's HEAD.
`python3 seed.py verify ID...`: in a private mount namespace, with copies of /repo and /verif: builds, runs the stable tests, the demo
and the quick check of the property (and any others given with +Cnn) on the patched tree."""
import sys, os, json, subprocess, shutil, re, tempfile, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = V + "/seeded"
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "src/main.rs"

[dependencies]
netsblox-vm = { path = "/repo", default-features = false, features = [%s] }
serde_json = "1.0"
serde = { version = "1.0", default-features = false }
bincode = "1.3.3"
rand = { version = "0.9.0", default-features = false }
gc-arena = { version = "0.5.3", default-features = false, features = ["std"] }

[profile.dev]
opt-level = 1
debug = 0
incremental = false
'''
CASES_SH = '''#!/bin/bash
# runs the programs of cases.ndjson on the VM in /repo and compares what they did with expected.ndjson
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/Cargo.toml" "$D/Cargo.lock" "$D/src" "$T/" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$T" || exit 3
cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo" run "$D/cases.ndjson" "$T/out.ndjson" 1 2>/dev/null
if cmp -s "$T/out.ndjson" "$D/expected.ndjson"; then echo "as expected"; exit 0; fi
echo "the programs did something else:"; diff "$D/expected.ndjson" "$T/out.ndjson" | cut -c1-1500
exit 1
'''
MAIN_SH = '''#!/bin/bash
# builds and runs main.rs against the crate in /repo: it exits 0 if the property holds for what it tries
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/Cargo.toml" "$D/Cargo.lock" "$D/src" "$T/" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$T" || exit 3
cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo"
'''
def mk(id, prop, edits, needs, breaks, cases=None, main=None, features=None, crate="harness", sh=None, files={}):
    d = SEED + "/" + id
    if os.path.exists(d): shutil.rmtree(d)
    w = tempfile.mkdtemp(prefix="mk")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/wt", "HEAD"])
    try:
        for f, old, new in edits:
            p = w + "/wt/src/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", w + "/wt", "diff"]).decode()
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/wt"])
        shutil.rmtree(w)
    os.makedirs(d + "/src")
    open(d + "/patch.diff", "w").write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if cases is not None:
        for f in os.listdir(V + "/" + crate + "/src"): shutil.copy(V + "/" + crate + "/src/" + f, d + "/src/" + f)
        if crate == "sys":
            shutil.copy(V + "/harness/src/ast.rs", d + "/src/ast.rs")
            t = open(d + "/src/main.rs").read()
            open(d + "/src/main.rs", "w").write(t.replace('#[path = "../../harness/src/ast.rs"] ', ""))
        for i, c in enumerate(cases): c["id"] = i + 1
        with open(d + "/cases.ndjson", "w") as f:
            for c in cases: f.write(json.dumps(c, ensure_ascii=False) + "\n")
        import drv
        drv.build()
        subprocess.run([drv.VH if crate == "harness" else drv.VS, "comp" if "kind" in cases[0] else "run", d + "/cases.ndjson", d + "/expected.ndjson", "1"], check=True, timeout=60)
    elif main is not None: open(d + "/src/main.rs", "w").write(main)
    else:
        os.rmdir(d + "/src")
        for f in files: open(d + "/" + f, "w").write(files[f])
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        return
    if crate == "sys":
        open(d + "/Cargo.toml", "w").write(open(V + "/sys/Cargo.toml").read().replace('"vs"', '"demo"'))
        open(d + "/Cargo.lock", "w").write(open(V + "/sys/Cargo.lock").read().replace('name = "vs"', 'name = "demo"'))
    else: open(d + "/Cargo.toml", "w").write((CARGO % ", ".join('"%s"' % x for x in (features or ["std", "serde"]))))
    lock = open(V + "/harness/Cargo.lock").read().replace('name = "vh"', 'name = "demo"') if not features else None
    if crate == "sys": pass
    elif lock: open(d + "/Cargo.lock", "w").write(lock)
    else: shutil.copy(V + "/sys/Cargo.lock", d + "/Cargo.lock")
    open(d + "/demo.sh", "w").write(CASES_SH.replace("demo\" run", "demo\" comp") if cases and "kind" in cases[0] else CASES_SH if cases is not None else MAIN_SH)
    os.chmod(d + "/demo.sh", 0o755)
    if cases is not None:
        for l in open(d + "/expected.ndjson"):
            o = json.loads(l)
            if "out" in o: print(id, str(o["out"])[:300]); continue
            print(id, o["compile"], [(t["kind"], [e.get("v") for e in t["ev"]]) for t in o["turns"]][:14])

SLOT = '''set -e
mount --bind %(s)s/repo /repo; mount --bind %(s)s/verif /verif; mount --bind %(s)s/work /opt/vp/work
cd /repo; git checkout -q -- .; git apply %(s)s/patch.diff
cd /tmp
if bash /opt/vp/test.sh %(s)s/t.json >/dev/null 2>&1; then :; fi
echo TESTS $(python3 - <<'P'
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; t=json.load(open("%(s)s/t.json"))
p=set(t.get("passed", [])) if isinstance(t.get("passed"), list) else set()
print(len(set(b)-p), "stable tests fail")
P
)
cd /repo; r=0; bash %(s)s/demo/demo.sh > %(s)s/demo.out 2>&1 || r=$?
echo DEMO $r; tail -c 600 %(s)s/demo.out
cd /verif
for p in %(props)s; do r=0; VERIF_SEED=1 python3 tools/check.py $p quick > %(s)s/check.out 2>&1 || r=$?; echo CHECK $p $r; grep -m2 -B1 VIOLATION %(s)s/check.out | cut -c1-500; tail -2 %(s)s/check.out | cut -c1-300; done
'''
def slot(k):
    s = "/tmp/slot%d" % k
    os.makedirs(s, exist_ok=True)
    if not os.path.exists(s + "/repo"): subprocess.check_call(["cp", "-a", "/repo", s + "/repo"])
    subprocess.check_call("cd %s/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % s, shell=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/work", "--exclude", "target", V + "/", s + "/verif/"]) if shutil.which("rsync") else subprocess.check_call("mkdir -p %s/verif && cp -a %s/. %s/verif/" % (s, V, s), shell=True)
    os.makedirs(s + "/verif/work", exist_ok=True)
    os.makedirs(s + "/work", exist_ok=True)
    return s
def verify(ids, nslots=2):
    q = queue.Queue()
    for i in ids: q.put(i)
    lock = threading.Lock()
    def worker(k):
        s = slot(k + int(os.environ.get("SLOT", 0)))
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            i, *more = i.split("+")
            m = json.load(open(SEED + "/" + i + "/meta.json"))
            shutil.copy(SEED + "/" + i + "/patch.diff", s + "/patch.diff")
            if os.path.exists(s + "/demo"): shutil.rmtree(s + "/demo")
            shutil.copytree(SEED + "/" + i, s + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            t = time.time()
            p = subprocess.run(["unshare", "-rm", "bash", "-c", SLOT % dict(s=s, props=" ".join([m["property"]] + more))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace")
            caught = ("CHECK %s 1" % m["property"]) in o and ("VIOLATION property=" + m["property"]) in o
            ok = "TESTS 0 " in o and "DEMO 1" in o
            with lock: print("==== %s %s %s %s (%.0f s)\n%s" % (i, m["property"], "counts" if ok else "DOES NOT COUNT", "caught" if caught else "MISSED", time.time() - t, o), flush=True)
    th = [threading.Thread(target=worker, args=(k,)) for k in range(min(nslots, len(ids)))]
    for t in th: t.start()
    for t in th: t.join()
if __name__ == "__main__":
    if sys.argv[1] == "verify":
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        verify(ids)
