"""Are the theorems of spec/Explore.tla worth anything?  Each entry breaks the scheduler of the specification in one
place; TLC must then refute a theorem on one of the property's worlds.  (Run by hand; the results are in DESIGN.md.)"""
import sys, os, shutil, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv, worlds
M = [
 ("yield goes to the front", "C01", "Sched", "IN Pack([m1 EXCEPT !.Q = Append(@, m.cur)]))\n    [] m.out \\in", "IN Pack([m1 EXCEPT !.Q = <<m.cur>> \\o @]))\n    [] m.out \\in"),
 ("yielding instance lost", "C01", "Sched", "IN Pack([m1 EXCEPT !.Q = Append(@, m.cur)]))\n    [] m.out \\in", "IN Pack(m1))\n    [] m.out \\in"),
 ("pause goes to the back", "C01", "Sched", "Pack([m EXCEPT !.Q = <<m.cur>> \\o @])", "Pack([m EXCEPT !.Q = <<m.cur>> \\o @ \\o @])"),
 ("warp yields", "C01", "VM", "done == [m EXCEPT !.x = [@ EXCEPT !.defer = <<>>]]", "done == [m EXCEPT !.x = [@ EXCEPT !.defer = <<>>], !.out = IF m.warp > 0 THEN \"Yield\" ELSE \"\"]"),
 ("key restarts", "C02", "Sched", "LAMBDA a, i: Activate(a, i, Ctx0, 0))\n    [] inp.k = \"keyup\"", "LAMBDA a, i: Activate(StopScript(a, i), i, Ctx0, 0))\n    [] inp.k = \"keyup\""),
 ("flag does not restart", "C02", "Sched", "LAMBDA a, i: Activate(StopScript(a, i), i, Ctx0, 0))\n    [] inp.k = \"key\"", "LAMBDA a, i: Activate(a, i, Ctx0, 0))\n    [] inp.k = \"key\""),
 ("queue one too long", "C02", "Sched", "IF maxq >= 0 /\\ k > maxq", "IF maxq >= 0 /\\ k > maxq + 1"),
 ("oldest dropped", "C02", "Sched", "THEN [m1 EXCEPT !.S[i].q = SubSeq(@, 1, k - 1)]", "THEN [m1 EXCEPT !.S[i].q = Tail(@)]"),
 ("stop keeps queues", "C02", "Sched", "[] inp.k = \"stop\" -> [FoldLeft(StopScript, m, Range0(Len(m.S)))", "[] inp.k = \"stop\" -> [m"),
 ("stop keeps launched scripts", "C02", "Sched", "EXCEPT !.P = [p \\in 1..Len(m.P) |-> [m.P[p] EXCEPT !.live = FALSE]], !.Q = <<>>]\nMessage", "EXCEPT !.nb = @]\nMessage"),
 ("interrupt keeps the queue", "C02", "Sched", "Activate(IF inp.int THEN StopScript(z[1], i) ELSE z[1],", "Activate(IF inp.int /\\ z[1].S[i].q = <<>> THEN StopScript(z[1], i) ELSE z[1],"),
 ("end does not start the next", "C02", "Sched", "[] m.out = \"Term\" -> ConsumeAll(Drop(", "[] m.out = \"Term\" -> (Drop("),
 ("last first", "C02", "Sched", "s.body, s.ent, s.lx, s.q[1]) IN\n    [m1 EXCEPT !.Q = Append(@, Len(m1.P)), !.S[i] = [@ EXCEPT !.proc = Len(m1.P), !.q = Tail(@)]]", "s.body, s.ent, s.lx, s.q[Len(s.q)]) IN\n    [m1 EXCEPT !.Q = Append(@, Len(m1.P)), !.S[i] = [@ EXCEPT !.proc = Len(m1.P), !.q = SubSeq(@, 1, Len(@) - 1)]]"),
 ("broadcast does not restart", "C03", "Sched", "LAMBDA b, i: Activate(StopScript(b, i), i, [Ctx0 EXCEPT !.bar", "LAMBDA b, i: Activate(b, i, [Ctx0 EXCEPT !.bar"),
 ("barrier sees first only", "C03", "VM", "(\\E p \\in 1..Len(m.P) : m.P[p].live /\\ p # m.cur /\\ m.P[p].x.bar = b)", "(\\E p \\in 1..(Len(m.P) - 1) : m.P[p].live /\\ p # m.cur /\\ m.P[p].x.bar = b)"),
 ("messages restart", "C04", "Sched", "Activate(z[1], i, [Ctx0 EXCEPT !.loc = z[2], !.rk = msg.rk], -1)", "Activate(StopScript(z[1], i), i, [Ctx0 EXCEPT !.loc = z[2], !.rk = msg.rk], -1)"),
 ("messages dropped beyond two", "C04", "Sched", "!.rk = msg.rk], -1)", "!.rk = msg.rk], 1)"),
 ("reply key lost in queue", "C04", "Sched", "!.rk = msg.rk], -1)", "!.rk = IF Alive(z[1], z[1].S[i].proc) THEN \"\" ELSE msg.rk], -1)"),
 ("stop others by sprite now", "C05", "Sched", "p # m.cur /\\ m.P[p].root = m.ent}", "p # m.cur /\\ m.P[p].ent = m.ent}"),
 ("stop all spares itself", "C05", "Sched", "[] a.mode = \"all\" -> Drop([Kill(m, 1..Len(m.P)) EXCEPT", "[] a.mode = \"all\" -> ([Kill(m, (1..Len(m.P)) \\ {m.cur}) EXCEPT"),
 ("stop all keeps waiting", "C05", "Sched", "!.Q = <<>>, !.S = [i \\in 1..Len(m.S) |-> [m.S[i] EXCEPT !.q = <<>>]]])", "!.Q = <<>>])"),
 ("deleted clone keeps scripts", "C06", "Sched", "!.S = SelectSeq(@, LAMBDA s: s.ent # a.of)]", "!.nb = @]"),
 ("deleted clone keeps instances", "C06", "Sched", "{p \\in 1..Len(m.P) : m.P[p].root = a.of})", "{m.cur})"),
 ("clone shares fields", "C06", "Sched", "<<Append(a[1], m.V[src.fields[nm]]), (nm :> (Len(a[1]) + 1)) @@ a[2]>>", "<<Append(a[1], m.V[src.fields[nm]]), (nm :> src.fields[nm]) @@ a[2]>>"),
 ("clone of a clone has no scripts", "C06", "Sched", "LAMBDA i: m.S[i].ent = root)", "LAMBDA i: m.S[i].ent = m1.E[id].orig /\\ m.E[a.of].orig = 0)"),
 ("launch replaces the launcher", "C08", "Sched", "m1 == ConsumeAll(m) IN [m1 EXCEPT !.Q = Append(@, id)]", "m1 == ConsumeAll(m) IN Drop(Kill([m1 EXCEPT !.Q = Append(@, id)], {m1.cur}))"),
 ("depth not restored", "C09", "VM", "[m EXCEPT !.fr = @[2], !.dep = @ - 1, !.loc = f.loc", "[m EXCEPT !.fr = @[2], !.loc = f.loc"),
 ("handlers kept on return", "C10", "VM", "!.warp = f.warp, !.hs = f.hs, !.x = [@ EXCEPT !.ul = f.ul]]", "!.warp = f.warp, !.x = [@ EXCEPT !.ul = f.ul]]"),
 ("sleep ends early", "C18", "VM", "IF m.now >= d.until THEN done", "IF m.now + 500 >= d.until THEN done"),
 ("sleep per turn", "C18", "VM", "IF m.now >= d.until THEN done", "IF m.now >= d.until - 1000 /\\ m.hi = 0 THEN done"),
]
def main():
    ids = sys.argv[1:]
    for name, pid, mod, old, new in M:
        if ids and pid not in ids and name not in ids: continue
        tmp = tempfile.mkdtemp()
        shutil.copytree(drv.VERIF + "/spec", tmp + "/spec", ignore=shutil.ignore_patterns("states"))
        f = "%s/spec/%s.tla" % (tmp, mod)
        s = open(f).read()
        if s.count(old) != 1: print("??", name, s.count(old)); shutil.rmtree(tmp); continue
        open(f, "w").write(s.replace(old, new))
        keep, drv.SPEC = drv.SPEC, tmp + "/spec"
        r = worlds.explore(tmp, list(worlds.WORLDS[pid]()), -1, 120)
        drv.SPEC = keep
        shutil.rmtree(tmp)
        bad = [(w["name"], (re.findall(r"(?m)^Error: .*?(?:Invariant|[pP]roperty) (\w+)", e) or [" ".join(re.findall(r"(?m)^.*(?:Error|not parse).*", e) or [e[-200:]])[:200]])[:1]) for w, _, _, e in r if e]
        print("%-34s %s %s" % (name, pid, "refuted: " + "; ".join("%s in '%s'" % (b[0], w) for w, b in bad) if bad else "NOT NOTICED"), flush=True)
main()
