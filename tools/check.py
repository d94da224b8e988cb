#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]

Decides one property on the code in /repo as it is now.  Exit 0: it held on everything explored; exit 1, with a line
VIOLATION property=<id> replay=<path>: it does not hold; exit 2: the check could not run."""
import sys, os, json, time, random, shutil, tempfile, collections, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv, stages

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = args[1] if len(args) > 1 and args[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = stages.load_known(pid)
    os.makedirs(drv.WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=drv.WORK, prefix=pid + "_")
    try:
        if "--replay" in sys.argv:
            return stages.replay(pid, sys.argv[sys.argv.index("--replay") + 1], tmp)
        acc = stages.Acc(pid, tier, seed, t0, tmp)
        stages.run(acc)
        rdir = drv.WORK + "/replay"
        os.makedirs(rdir, exist_ok=True)
        new, seen = [], set()
        for v in acc.violations:
            k = next((k for k in known if stages.matches(k, v)), None)
            if k is None: new.append(v)
            else: seen.add(k["what"])
        for k in sorted(k["what"] for k in known): print("KNOWN-FINDING: property=%s %s%s" % (pid, k, "" if k in seen else " (not met in this run)"))
        paths = []
        for i, v in enumerate(new[:10]):
            p = "%s/%s_%s_%d_%d.json" % (rdir, pid, tier, seed, i + 1)
            json.dump(dict(v, property=pid), open(p, "w"), ensure_ascii=False, indent=None)
            paths.append(p)
            print("%s: %s" % (v.get("where", ""), v["why"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        cov = acc.coverage()
        ev = dict(property=pid, tier=tier, seed=seed, level=acc.level, coverage=cov, assumptions=stages.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(drv.VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(drv.VERIF + "/evidence/%s.json" % pid, "w"), ensure_ascii=False, indent=1)
        print("%s %s: %d violations; %s; %.0f s" % (pid, tier, len(new), {k: v for k, v in cov.items() if isinstance(v, int)}, time.time() - t0))
        for n in acc.notes: print("note:", n[:600])
        if new: return 1
        if acc.undecided and acc.undecided * 20 > max(1, acc.valid): print("too many undecided"); return 2
        return 0
    except drv.Broken as e:
        print("CHECK ERROR:", e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
