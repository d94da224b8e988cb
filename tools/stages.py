"""What each check runs.  A stage adds measurements and violations to an Acc."""
import sys, os, json, time, random, collections, re
import drv, fam, ops, comp, net, worlds, srv, client, dump

ASSUMPTIONS = [
    "the recording harness reports faithfully what the VM did (it only uses the VM's public interface)",
    "TLC and the community modules evaluate the specification correctly",
    "numbers are compared exactly on the dyadic rationals the specification computes, and within an error bound elsewhere",
]
class Acc:
    def __init__(s, pid, tier, seed, t0, tmp):
        s.pid, s.tier, s.seed, s.t0, s.tmp = pid, tier, seed, t0, tmp
        s.level = "model_checking"
        s.violations, s.notes, s.samples = [], [], []
        s.valid = s.taint = s.skips = s.undecided = s.states = s.transitions = 0
        s.hist, s.extra = collections.Counter(), collections.OrderedDict()
        s.ends, s.ops, s.taints = collections.Counter(), collections.Counter(), collections.Counter()
    def left(s): # seconds a thorough run may still use
        return 780 - (time.time() - s.t0)
    def coverage(s):
        c = dict(states=s.states, transitions=s.transitions, traces_validated_against_impl=s.valid, samples=s.samples[:4])
        if s.taint: c["traces_left_undecided_by_inexact_arithmetic_or_budget"] = s.taint
        if s.skips: c["evaluations_left_undecided"] = s.skips
        if s.undecided: c["traces_the_checker_could_not_evaluate"] = s.undecided
        if s.ends: c["turns_by_outcome"] = dict(s.ends)
        if s.hist: c["events"] = dict(s.hist.most_common(40))
        if s.ops: c["blocks_in_programs"] = dict(s.ops.most_common())
        if s.taints: c["undecided_reasons"] = dict(s.taints.most_common(8))
        c.update(s.extra)
        return c

def load_known(pid):
    out = []
    p = drv.VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=/(.*?)/ (.*)", l.rstrip("\n"))
            if m and m.group(1) == pid: out.append(dict(match=m.group(2), what=m.group(3)))
    return out
def matches(k, v): return re.search(k["match"], v["why"]) is not None

# --------------------------------------------------------------------------- recorded executions against the specification
def trim(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."
def trace(acc, batch, label):
    """runs cases on the VM, and checks every recording with TLC"""
    for i, c in enumerate(batch): c["id"] = i + 1
    res, crashed = drv.execute(batch, acc.tmp)
    ver, st, errs = drv.validate(batch, res, acc.tmp, timeout=max(60, min(600, 860 - (time.time() - acc.t0))))
    acc.states += st["distinct"]; acc.transitions += st["generated"]
    for e in errs: acc.notes.append(e)
    acc.skips += len(st["skips"]); acc.taints.update(x[2] for x in st["skips"])
    for c in batch:
        r = res.get(c["id"])
        if r is None: continue
        acc.ends.update(t["kind"] for t in r[0]["turns"])
        acc.hist.update(e["e"] + ":" + e["k"] for t in r[0]["turns"] for e in t["ev"])
        acc.ops.update(n["o"] for n in c["nodes"])
        v = ver.get(c["id"])
        # the evaluations of the tables neither loop nor recurse: whatever their value, they end
        if "evals" in c and r[0].get("compile") in ("crash", "hang") and not (v and v[0] == "bad"): v = ("bad", 0, r[0]["msg"] + " (evaluating " + ", ".join(c["evals"]) + ")")
        if v is None: acc.undecided += 1; continue
        if v[0] == "ok":
            acc.valid += 1
            if len(acc.samples) < 2 and sum(len(t["ev"]) for t in r[0]["turns"]) > 3:
                acc.samples.append(dict(family=label, program=trim(outline(c)), recorded=trim([dict(end=t["kind"], events=[[e["k"], e.get("v")] for e in t["ev"]]) for t in r[0]["turns"][:12]])))
        elif v[0] == "taint": acc.taint += 1; acc.taints[v[2]] += 1
        else: acc.violations.append(dict(kind="trace", where="%s case, turn %d%s" % (label, v[1], " (%s)" % c["evals"][v[1] - 1] if "evals" in c and v[1] else ""), turn=v[1], why=v[2], case=c, recorded=r[0]["turns"][max(0, v[1] - 1):v[1] + 1] or r[0]))
def family(name, quick, per=1600):
    def f(acc):
        g = getattr(fam, name)
        n, k = quick, 0
        while True:
            trace(acc, [g(random.Random("%s/%d/%d" % (name, acc.seed + 1000 * k, i))) for i in range(n)], name)
            acc.extra[name + "_programs"] = acc.extra.get(name + "_programs", 0) + n
            k += 1; n = per
            if acc.tier == "quick" or acc.violations or acc.left() < acc.share(): return
    f.__name__ = name
    return f
def table(name, n=None):
    """the operator table of a property: all of it, or n evaluations drawn from it"""
    def f(acc):
        cs, total = ops.cases(name, acc.seed, n if acc.tier == "quick" else None)
        # in batches, so that TLC keeps few cases at a time
        for i in range(0, len(cs), 1600): trace(acc, cs[i:i + 1600], "operator table " + name)
        acc.extra[name + "_operator_evaluations"] = sum(len(c["evals"]) for c in cs)
        acc.extra[name + "_operator_table_size"] = total
        k = collections.Counter(e for c in cs for e in c["evals"])
        acc.extra[name + "_evaluations_by_operator"] = dict(sorted(k.items()))
    f.__name__ = name + "_table"
    return f
def rtable(name, n):
    """random operands of the shapes in the operator table"""
    def f(acc):
        k = 0
        while True:
            m = n if acc.tier == "quick" else 24000
            trace(acc, ops.random_cases(name, acc.seed + 1000 * k, m), "random operands " + name)
            acc.extra[name + "_random_operand_evaluations"] = acc.extra.get(name + "_random_operand_evaluations", 0) + m
            k += 1
            if acc.tier == "quick" or acc.violations or acc.left() < acc.share(): return
    f.__name__ = name + "_random"
    return f
def explored(name):
    """small projects whose every history TLC explores, checking the scheduler's theorems; each transition is then replayed on the VM"""
    def f(acc):
        deeper = -1
        while True:
            ws = list(worlds.WORLDS[name]())
            left = acc.share()
            cases = []
            for w, hs, st, err in worlds.explore(acc.tmp, ws, deeper, 300 if acc.tier == "quick" else max(30, acc.left() - left) / 2):
                if err == "timeout" and acc.tier != "quick": acc.notes.append("exploration of %s cut at depth %d" % (w["name"], w["depth"] + deeper))
                elif err: raise drv.Broken("Explore %s: %s" % (w["name"], err))
                acc.states += st["distinct"]; acc.transitions += st["generated"]
                hs = worlds.maximal(hs)
                acc.extra.setdefault("explored_worlds", collections.OrderedDict())["%s: %s" % (name, w["name"])] = dict(turns=w["depth"] + deeper, histories=len(hs), states=st["distinct"])
                cases += [worlds.case_of(w, h) for h in hs]
            for i in range(0, len(cases), 4000):
                if acc.tier == "quick" or acc.left() > left: trace(acc, cases[i:i + 4000], "explored world")
            deeper += 1
            if acc.tier == "quick" or acc.violations or acc.left() < left + 60 or deeper > 3: return
    f.__name__ = "explored"
    return f
def histories(kind, arg, quick, thorough):
    """every history of a component up to a length, enumerated by TLC from its specification and replayed on the real type"""
    def f(acc): comp.exhaustive(acc, kind, arg, quick if acc.tier == "quick" else thorough)
    f.__name__ = "histories_%s_%d" % (kind, arg)
    return f
def recorded(name, quick, per, make):
    """generated component histories or evaluations, recorded on the real types and checked by TLC; make(r, n, deep) gives n cases"""
    def f(acc):
        n, k = quick, 0
        while True:
            comp.recorded(acc, make(random.Random("%s/%d" % (name, acc.seed + 1000 * k)), n, acc.tier != "quick"), name)
            k += 1; n = per
            if acc.tier == "quick" or acc.violations or acc.left() < acc.share(): return
    f.__name__ = name
    return f
def sessions(name, quick, per, make):
    """sessions with the command-line tool, recorded and checked by TLC"""
    def f(acc):
        n, k = quick, 0
        while True:
            srv.sessions(acc, [make(random.Random("%s/%d/%d" % (name, acc.seed + 1000 * k, i))) for i in range(n)], name)
            k += 1; n = per
            if acc.tier == "quick" or acc.violations or acc.left() < acc.share(): return
    f.__name__ = name
    return f
def each(*gens): return lambda r, n, deep: [g(r) for _ in range(n) for g in gens]
def outline(c):
    N = c["nodes"]
    def v(x):
        t = x.get("t")
        if t == "n": return x["n"] / 2 ** x["k"] if x["k"] else x["n"]
        if t in ("s", "b"): return x[t]
        return x
    def ex(n):
        d = N[n - 1]
        if d["o"] == "lit": return json.dumps(v(d["v"]), ensure_ascii=False)
        if d["o"] == "var": return "$" + d["s"][0]
        if d["o"] == "block": return "{" + "; ".join(ex(x) for x in d["a"]) + "}"
        return "%s%s(%s)" % (d["o"], "<" + ",".join(d["s"]) + ">" if d["s"] else "", ", ".join(ex(x) for x in d["a"]))
    return dict(globals=[x[0] for x in c["role"]["globals"]], functions={f["name"]: ex(f["body"]) for f in c["role"]["funcs"]},
                sprites=[dict(name=e["name"], scripts=[[" ".join(s["hat"]), ex(s["body"])] for s in e["scripts"]]) for e in c["role"]["entities"]])

PLAN = {}
def run(acc):
    plan = PLAN[acc.pid]
    t0 = time.time()
    drv.build()
    if acc.pid == "C27": drv.build(drv.SYS)
    if acc.pid in ("C29", "C30", "C33"): drv.build(drv.CMD)
    acc.extra["build_s"] = round(time.time() - t0, 1)
    for i, st in enumerate(plan):
        n = len(plan) - i
        start, left = time.time(), acc.left()
        # a thorough run shares its time evenly over the stages that remain
        acc.share = lambda: left * (n - 1) / n
        st(acc)
        acc.extra[st.__name__ + "_s"] = round(time.time() - start, 1)
def replay(pid, path, tmp):
    v = json.load(open(path))
    drv.build()
    if v["kind"] == "trace":
        acc = Acc(pid, "quick", 1, time.time(), tmp)
        trace(acc, [v["case"]], "replay")
        for x in acc.violations: print(x["where"], x["why"]); print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if acc.violations else 0
    if v["kind"] == "comp":
        if v["case"]["kind"] == "net": drv.build(drv.SYS)
        if v["case"]["kind"] == "dump": drv.build(drv.CMD)
        acc = Acc(pid, "quick", 1, time.time(), tmp)
        if v["case"]["kind"] == "deep": comp.deep(acc, [(o["o"], o["n"]) for o in v["case"]["ops"]])
        else: comp.recorded(acc, [v["case"]], "replay")
        for x in acc.violations: print(x["where"], x["why"]); print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if acc.violations else 0
    if v["kind"] == "sess":
        drv.build(drv.CMD)
        acc = Acc(pid, "quick", 1, time.time(), tmp)
        srv.sessions(acc, [v["case"]], "replay")
        for x in acc.violations: print(x["where"], x["why"]); print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if acc.violations else 0
    raise drv.Broken("unknown replay kind")

QUICK = dict(C01=1500, C02=1500, C03=1500, C04=1500, C05=1500, C06=1500, C07=1500, C08=1500, C09=1500, C10=1500, C11=1500, C17=1500, C18=1500, C19=1500, C20=1200, C24=1500, C28=1500, C31=1500)
for k, n in QUICK.items(): PLAN[k] = [family(k, n)]
for k in worlds.WORLDS: PLAN[k].append(explored(k))
def deep(acc): comp.deep(acc, [(o, n) for o in comp.DEEP for n in (0, 1, 2, 40, 1000)]); comp.deep(acc, [(o, 100000) for o in comp.DEEP])
PLAN["C10"].append(deep)
PLAN["C12"] = [table("C12"), rtable("C12", 8000)]
PLAN["C13"] = [table("C13"), rtable("C13", 8000)]
PLAN["C14"] = [table("C14"), rtable("C14", 8000), family("C14S", 1200)]
PLAN["C15"] = [table("C15"), rtable("C15", 8000), family("C15S", 1200)]
PLAN["C16"] = [table("C16"), rtable("C16", 8000)]
PLAN["C21"] = [recorded("plain_and_json_values", 9000, 40000, lambda r, n, deep: comp.evals(comp.plain(r, n))), family("C21S", 1200)]
PLAN["C22"] = [histories("slot", 0, 6, 7), recorded("long_slot_histories", 3, 3, lambda r, n, deep: [comp.slot_rounds(r, 18)] + ([comp.slot_long(r, k) for k in (300, 66000, 70000)] if not deep else [comp.slot_long(r, r.randint(10, 140000)) for _ in range(n)])), recorded("slot_histories", 1500, 4000, each(comp.slot_case))]
PLAN["C23"] = [histories("vec", a, 4, 5) for a in range(4)] + [recorded("vec_histories", 2500, 6000, each(comp.vec_case))]
PLAN["C25"] = [histories("one", 0, 7, 9), histories("one", 1, 6, 7), histories("bar", 0, 6, 7)] + [histories("idle", a, 4, 6) for a in (1, 2, 3)] + [histories("clock", a, 5, 6) for a in range(4)] + [recorded("primitive_histories", 600, 2000, each(comp.one_case, comp.bar_case, comp.idle_case, comp.clock_case))]
PLAN["C27"] = [histories("net", 0, 5, 6)] + [histories("net", a, 4, 5) for a in (1, 2, 3)] + [recorded("network_histories", 900, 3000, each(net.net_case)), recorded("service_calls", 300, 1200, each(net.prog_case))]
PLAN["C26"] = [recorded("notes_and_colours", 1, 1, lambda r, n, deep: comp.evals(comp.notes(r, deep) + comp.colours(r, deep))), family("C26S", 1000)]

PLAN["C29"] = [sessions("execution_server", 400, 1000, srv.start_case), sessions("project_runs", 500, 1200, srv.run_case)]

PLAN["C30"] = [sessions("projects_with_files", 900, 2000, srv.file_case)]
PLAN["C32"] = [histories("client", 0, 10, 11), histories("client", 1, 6, 6), recorded("editor_sessions", 1200, 4000, each(client.case))]
PLAN["C33"] = [recorded("dumps", 2500, 5000, each(dump.any_case))]

_TRACE = "TLA+ model of the VM and its scheduler; TLC checks traces recorded from the real VM against it"
_NOTE = ("Thousands of generated programs and input schedules per run are executed on the real VM and by the specification; every host request, result, error, "
         "call frame and project state must agree at every turn. Bounded by the generated programs (a few scripts, tens of turns); trusts TLC, the recording harness and the specification.")
NOTES = {"*": (_TRACE, _NOTE)}
for k in worlds.WORLDS: NOTES[k] = ("TLA+ model of the VM and its scheduler; TLC explores every input history of small projects with theorems about each step, each history replayed on the real VM, and checks recorded traces of generated programs",
    "Every history of inputs, messages and host answers of some small projects is explored by TLC to a depth of 5 or more turns, with theorems checked in every state and step, and replayed on the real VM. " + _NOTE)
_COMP = "TLA+ specification of the component; TLC enumerates every short history, replayed on the real type, and checks recorded long ones"
_CNOTE = ("Every history of operations up to a length is enumerated by TLC from the specification, with its theorems checked in every state, and replayed on the real type; longer generated histories "
          "recorded on the real type are checked by TLC. Bounded by those lengths and generators; trusts TLC, the harness and the specification.")
for k in ("C22", "C23", "C25"): NOTES[k] = (_COMP, _CNOTE)
NOTES["C27"] = ("TLA+ specification of the standard system's network; TLC enumerates every short history, replayed against a loopback server, and checks recorded long ones", _CNOTE)
_EV = "TLA+ functions giving each conversion's result; TLC checks evaluations recorded from the real code, and traces of programs using them"
for k in ("C21", "C26"): NOTES[k] = (_EV, "Tens of thousands of evaluations of the public conversions, systematic where the domain is small, and programs which use them are recorded on the real code and checked by TLC. Bounded by the generators; trusts TLC, the harness and the specification.")
NOTES["C29"] = ("TLA+ model of the command-line tool over that of the VM; TLC checks sessions recorded with the real tool against it",
                "Hundreds of generated sessions per run, with the execution server over HTTP and with project files run in a pipe or a pseudo-terminal, are recorded on the real tool and checked by TLC, each answer, line of output and error summary. Between operations the tool is left to come to rest. Bounded by the generators; trusts TLC, the driver and the specification.")
NOTES["C33"] = ("TLA+ specification of a dump as a function of the compiled project; TLC checks dumps made by the real command-line tool",
                "Thousands of generated projects are dumped with the real tool; TLC checks every row against the bytes the library hands out when it compiles the same project. What the text of an instruction says is outside: what instructions do is decided by the other properties. Bounded by the generators; trusts TLC, the driver and the specification.")
NOTES["C32"] = ("TLA+ specification of the editor's extension; TLC enumerates every short history of its user, its server and time, replayed on the rendered extension, and checks recorded sessions",
                "The extension rendered by the real code runs in node in a stand-in of the editor (documents with live collections, requests, timers, buttons, blocks, comments). Every history of two small editors up to 6 and 10 operations is enumerated by TLC, with its theorems, and replayed; a thousand generated sessions more are recorded and checked by TLC. Trusts TLC, the stand-in and the specification; what the editor draws is outside.")
NOTES["C30"] = ("TLA+ model of the files over that of the VM and the command-line tool; TLC checks sessions recorded with the real tool, and the files it leaves, against it",
                "Hundreds of generated projects which open, read, write and close files run on the real tool in scratch directories; TLC checks every value read, every error and the files left. What is written is decided once its file is closed or the tool has ended. Bounded by the generators; trusts TLC, the driver and the specification.")
