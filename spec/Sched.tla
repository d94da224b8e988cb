-------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The project: scripts, their waiting activations, the ready queue, and   *)
(* everything that starts, stops and interleaves script instances.         *)
(*                                                                         *)
(*   S  scripts: hat, body, owning sprite, running instance (or 0), and    *)
(*      the queue q of activations waiting for the previous one to finish  *)
(*   P  script instances ("processes"), Q the ready queue (first runs),    *)
(*   cur  the instance loaded in the machine (0: none)                     *)
(***************************************************************************)
EXTENDS VM

X0 == [defer |-> <<>>, msg |-> <<>>, ans |-> <<>>, rerr |-> <<>>, serr |-> <<>>, bar |-> 0, rk |-> "", ul |-> 0, lin |-> 0, at |-> 0]
Ctx0 == [loc |-> <<>>, bar |-> 0, rk |-> "", msg |-> <<>>, lin |-> 0, at |-> 0]
\* an activation dispatched by the loaded instance: one generation further; -1: not decided (a sender which restarted itself meanwhile)
Heir(m, ctx) == IF m.cur # 0 /\ m.P[m.cur].live /\ m.x.lin >= 0 THEN [ctx EXCEPT !.lin = m.x.lin + 1, !.at = m.x.ul] ELSE [ctx EXCEPT !.lin = -1]

(***************************************************************************)
(* Initial state of a project                                              *)
(***************************************************************************)
\* initial values: lists may be shared (ref) and cyclic; st = <<h, ids>>
SlotOf(st, id) == IF id \in DOMAIN st[2] THEN st ELSE LET z == Alloc(st[1], <<>>) IN <<z[2], (id :> z[3].l) @@ st[2]>>
RECURSIVE InitVal(_, _)
InitVal(st, v) == \* <<st, value>>
  CASE v.t = "ref" -> (LET s == SlotOf(st, v.id) IN <<s, LRef(s[2][v.id])>>)
    [] v.t = "lst" ->
         (LET s == IF "id" \in DOMAIN v THEN SlotOf(st, v.id) ELSE st
              r == FoldLeft(LAMBDA a, y: LET z == InitVal(a[1], y) IN <<z[1], Append(a[2], z[2])>>, <<s, <<>>>>, v.e) IN
          IF "id" \in DOMAIN v THEN <<<<[r[1][1] EXCEPT !.L[r[1][2][v.id]] = r[2]], r[1][2]>>, LRef(r[1][2][v.id])>>
          ELSE LET z == Alloc(r[1][1], r[2]) IN <<<<z[2], r[1][2]>>, z[3]>>)
    [] OTHER -> (LET z == Lit(st[1], v) IN <<<<z[1], st[2]>>, z[2]>>)
\* variables: acc = <<st, V, map>>
InitVars(st, V, defs) ==
  FoldLeft(LAMBDA a, d: LET z == InitVal(a[1], d[2]) IN <<z[1], Append(a[2], z[2]), (d[1] :> (Len(a[2]) + 1)) @@ a[3]>>, <<st, V, <<>>>>, defs)
InitMedia(st, defs) ==
  FoldLeft(LAMBDA a, d: LET z == InitVal(a[1], d[2]) IN <<z[1], Append(a[2], <<d[1], z[2]>>)>>, <<st, <<>>>>, defs)
NumLit(v) == Norm(v.n, v.k)
InitProps(e) ==
  LET q == HsvOf(e.color[1], e.color[2], e.color[3])  z == Zero IN
  <<NumLit(e.x), NumLit(e.y), Mod360(NumLit(e.heading)), B(e.visible), MulNum(NumLit(e.scale), I(100)), B(FALSE), I(1),
    q[1], q[2], q[3], Apx(1000000 - (1000000 * e.color[4]) \div 255, 5), I(60), I(100), z, z, z, z, z, z, z, z, z, z>>
InitEnt(acc, e) == \* acc = <<st, V, E>>
  LET f == InitVars(acc[1], acc[2], e.fields)
      cs == InitMedia(f[1], e.costumes)
      ss == InitMedia(cs[1], e.sounds) IN
  <<ss[1], f[2], Append(acc[3], [name |-> e.name, orig |-> 0, par |-> 0, fields |-> f[3], costume |-> IF e.active = 0 THEN Empty ELSE cs[2][e.active][2], costumes |-> cs[2], sounds |-> ss[2], props |-> InitProps(e)])>>
InitScripts(r) ==
  FoldLeft(LAMBDA acc, i: FoldLeft(LAMBDA a, s: IF s.hat[1] = "none" THEN a ELSE Append(a, [hat |-> s.hat, body |-> s.body, ent |-> i, lx |-> i, proc |-> 0, q |-> <<>>]), acc, r.entities[i].scripts), <<>>, Range0(Len(r.entities)))
InitMachine(cid) ==
  LET c == Cases[cid]
      r == c.role
      g == InitVars(<<[L |-> <<>>, ri |-> 0, rs |-> c.env.rand, ic |-> 0], <<>>>>, <<>>, r.globals)
      e == FoldLeft(InitEnt, <<g[1], g[2], <<>>>>, r.entities) IN
  [cid |-> cid, h |-> e[1][1], C |-> <<>>, V |-> e[2], E |-> e[3], G |-> g[3], S |-> InitScripts(r), P |-> <<>>, Q |-> <<>>, cur |-> 0,
   todo |-> <<>>, vals |-> <<>>, loc |-> <<>>, ent |-> 1, lx |-> 1, warp |-> 0, fr |-> <<>>, dep |-> 1, hs |-> <<>>, x |-> X0,
   ev |-> <<>>, hi |-> 0, pi |-> 0, now |-> c.env.t0, ts |-> c.env.t0, out |-> "", ov |-> <<>>, taint |-> "", cnt |-> 0, act |-> <<>>, spawn |-> <<>>, nb |-> 0,
   F |-> IF "files" \in DOMAIN c.env THEN FilesInit(c.env.files) ELSE <<>>]

(***************************************************************************)
(* Instances and activations                                               *)
(***************************************************************************)
NewProc(m, body, ent, lx, ctx) == \* appended; not yet queued
  [m EXCEPT !.P = Append(@, [live |-> TRUE, root |-> ent, todo |-> <<<<"b", body, 1>>, <<>>>>, vals |-> <<>>, loc |-> ctx.loc, ent |-> ent, lx |-> lx, warp |-> 0, fr |-> <<>>, dep |-> 1, hs |-> <<>>,
                             x |-> [X0 EXCEPT !.bar = ctx.bar, !.rk = ctx.rk, !.msg = ctx.msg, !.lin = ctx.lin, !.at = ctx.at]])]
Alive(m, p) == p # 0 /\ m.P[p].live
\* if nothing of script i runs, its oldest waiting activation starts, at the end of the ready queue
Consume(m, i) ==
  LET s == m.S[i] IN
  IF Alive(m, s.proc) \/ s.q = <<>> THEN m
  ELSE LET m1 == NewProc(m, s.body, s.ent, s.lx, s.q[1]) IN
    [m1 EXCEPT !.Q = Append(@, Len(m1.P)), !.S[i] = [@ EXCEPT !.proc = Len(m1.P), !.q = Tail(@)]]
ConsumeAll(m) == FoldLeft(Consume, m, Range0(Len(m.S)))
StopScript(m, i) ==
  LET p == m.S[i].proc  m1 == [m EXCEPT !.S[i] = [@ EXCEPT !.proc = 0, !.q = <<>>]] IN
  IF p = 0 THEN m1 ELSE [m1 EXCEPT !.P[p].live = FALSE]
\* the activation waits its turn; if the queue is then longer than allowed, this newest one is dropped
Activate(m, i, ctx, maxq) ==
  LET m1 == Consume([m EXCEPT !.S[i].q = Append(@, ctx)], i)  k == Len(m1.S[i].q) IN
  IF maxq >= 0 /\ k > maxq THEN [m1 EXCEPT !.S[i].q = SubSeq(@, 1, k - 1)] ELSE m1
\* every script whose hat satisfies Hit: waiting activations first, then F(m, i)
ForScripts(m, Hit(_), F(_, _)) ==
  LET idx == SelectSeq(Range0(Len(m.S)), LAMBDA i: Hit(m.S[i])) IN
  IF idx = <<>> THEN m ELSE FoldLeft(F, ConsumeAll(m), idx)
\* local variables for the fields of a hat: <<m, loc>>
FieldLocals(m, fields, args) ==
  FoldLeft(LAMBDA a, f:
     LET S == {i \in 1..Len(args) : args[i][1] = f}
         z == IF S = {} THEN <<a[1].h, Zero>> ELSE HostVal(a[1].h, args[CHOOSE i \in S : \A j \in S : i >= j][2])
         m1 == [a[1] EXCEPT !.h = z[1], !.V = Append(@, z[2])] IN
     <<m1, (f :> Len(m1.V)) @@ a[2]>>, <<m, <<>>>>, fields)

(***************************************************************************)
(* Inputs                                                                  *)
(***************************************************************************)
\* a hat names a single key in either case, the host always reports the lower-case one
UpperKeys == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerKeys == "abcdefghijklmnopqrstuvwxyz"
HatKey(k) == LET ks == {i \in 1..26 : SubSeq(UpperKeys, i, i) = k} IN IF ks = {} THEN k ELSE LET i == CHOOSE j \in ks : TRUE IN SubSeq(LowerKeys, i, i)
Input(m, inp) ==
  CASE inp.k = "start" -> ForScripts(m, LAMBDA s: s.hat[1] = "flag", LAMBDA a, i: Activate(StopScript(a, i), i, Ctx0, 0))
    [] inp.k = "key" -> ForScripts(m, LAMBDA s: s.hat[1] = "key" /\ HatKey(s.hat[2]) \in {"any key", inp.key}, LAMBDA a, i: Activate(a, i, Ctx0, 0))
    [] inp.k = "keyup" -> m
    \* the host gives a sprite one more script: one of the project's (with a hat of its own or not), or a custom block
    [] inp.k = "add" ->
         LET r == Case(m).role
             body == IF inp.fn THEN (IF inp.e = 0 THEN r.funcs[inp.i] ELSE r.entities[inp.e].funcs[inp.i]).body ELSE r.entities[inp.e].scripts[inp.i].body IN
         [m EXCEPT !.S = Append(@, [hat |-> inp.hat, body |-> body, ent |-> inp.to, lx |-> inp.e, proc |-> 0, q |-> <<>>])]
    [] inp.k = "ev" ->
         ForScripts(m, LAMBDA s: s.hat[1] = "ev" /\ s.hat[2] = inp.name,
                    LAMBDA a, i: LET z == FieldLocals(a, SubSeq(a.S[i].hat, 3, Len(a.S[i].hat)), inp.args) IN
                                 Activate(IF inp.int THEN StopScript(z[1], i) ELSE z[1], i, [Ctx0 EXCEPT !.loc = z[2]], inp.mq))
    [] inp.k = "stop" -> [FoldLeft(StopScript, m, Range0(Len(m.S))) EXCEPT !.P = [p \in 1..Len(m.P) |-> [m.P[p] EXCEPT !.live = FALSE]], !.Q = <<>>]
Message(m, msg) ==
  ForScripts(m, LAMBDA s: s.hat[1] = "net" /\ s.hat[2] = msg.type,
             LAMBDA a, i: LET z == FieldLocals(a, SubSeq(a.S[i].hat, 3, Len(a.S[i].hat)), msg.vals) IN
                          Activate(z[1], i, [Ctx0 EXCEPT !.loc = z[2], !.rk = msg.rk], -1))

(***************************************************************************)
(* Switching instances                                                     *)
(***************************************************************************)
Pack(m) == \* put the loaded instance back
  IF m.cur = 0 THEN m
  ELSE [m EXCEPT !.P[m.cur] = [@ EXCEPT !.todo = m.todo, !.vals = m.vals, !.loc = m.loc, !.ent = m.ent, !.lx = m.lx, !.warp = m.warp, !.fr = m.fr, !.dep = m.dep, !.hs = m.hs, !.x = m.x],
                !.cur = 0, !.x = X0]
Drop(m) == [m EXCEPT !.cur = 0, !.x = X0, !.todo = <<>>, !.fr = <<>>, !.hs = <<>>]      \* the loaded instance is gone
Load(m, p) ==
  LET q == m.P[p] IN
  [m EXCEPT !.cur = p, !.todo = q.todo, !.vals = q.vals, !.loc = q.loc, !.ent = q.ent, !.lx = q.lx, !.warp = q.warp, !.fr = q.fr, !.dep = q.dep, !.hs = q.hs, !.x = q.x]
\* next live instance of the ready queue, if any
Pick(m) ==
  LET S == {i \in 1..Len(m.Q) : m.P[m.Q[i]].live} IN
  IF S = {} THEN [m EXCEPT !.Q = <<>>, !.out = "Idle"]
  ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN Load([m EXCEPT !.Q = SubSeq(@, i + 1, Len(@))], m.Q[i])

\* what a block asked of the scheduler
CloneOf(m, of) ==
  LET src == m.E[of]
      names == SetToSeq(DOMAIN src.fields)
      f == FoldLeft(LAMBDA a, nm: <<Append(a[1], m.V[src.fields[nm]]), (nm :> (Len(a[1]) + 1)) @@ a[2]>>, <<m.V, <<>>>>, names) IN
  [m EXCEPT !.V = f[1], !.E = Append(@, [src EXCEPT !.orig = IF src.orig = 0 THEN of ELSE src.orig, !.par = of, !.fields = f[2]])]
Kill(m, S) == [m EXCEPT !.P = [p \in 1..Len(m.P) |-> IF p \in S THEN [m.P[p] EXCEPT !.live = FALSE] ELSE m.P[p]]]
Act(m0) ==
  LET a == m0.act  m == [m0 EXCEPT !.act = <<>>] IN
  CASE a.k = "cast" ->
         (LET m1 == IF a.wait THEN [m EXCEPT !.nb = @ + 1] ELSE m
              m2 == ForScripts(m1, LAMBDA s: (s.hat[1] = "anymsg" \/ (s.hat[1] = "msg" /\ s.hat[2] = a.msg)) /\ (a.all \/ \E i \in 1..Len(a.to) : a.to[i] = s.ent),
                               LAMBDA b, i: Activate(StopScript(b, i), i, [Heir(b, Ctx0) EXCEPT !.bar = IF a.wait THEN m1.nb ELSE 0, !.msg = <<T(a.msg)>>], 0)) IN
          IF ~m2.P[m2.cur].live THEN Drop(m2)
          ELSE IF a.wait THEN Defer(m2, [k |-> "bar", b |-> m2.nb, n |-> a.n]) ELSE m2)
    [] a.k = "clone" ->
         (LET m1 == CloneOf(m, a.of)
              id == Len(m1.E)
              root == m1.E[id].orig
              mine == SelectSeq(Range0(Len(m.S)), LAMBDA i: m.S[i].ent = root)
              news == [j \in 1..Len(mine) |-> [m.S[mine[j]] EXCEPT !.ent = id, !.proc = 0, !.q = <<>>]]
              onc == SelectSeq(Range0(Len(news)), LAMBDA j: news[j].hat[1] = "clone")
              m2 == IF onc = <<>> THEN m1 ELSE ConsumeAll(m1) IN
          FoldLeft(LAMBDA b, j: Activate(b, Len(m.S) + j, Heir(m, Ctx0), 0), [m2 EXCEPT !.S = @ \o news], onc))
    [] a.k = "delete" ->
         (LET m1 == Kill([m EXCEPT !.S = SelectSeq(@, LAMBDA s: s.ent # a.of)], {p \in 1..Len(m.P) : m.P[p].root = a.of})
              m2 == IF m1.P[m1.cur].live THEN m1 ELSE Drop(m1) IN ConsumeAll(m2))
    [] a.mode = "current" -> ConsumeAll(Drop(Kill(m, {m.cur})))
    [] a.mode = "all" -> Drop([Kill(m, 1..Len(m.P)) EXCEPT !.Q = <<>>, !.S = [i \in 1..Len(m.S) |-> [m.S[i] EXCEPT !.q = <<>>]]])
    [] a.mode = "others" -> [Kill(m, (1..Len(m.P)) \ {m.cur}) EXCEPT !.Q = <<>>]
    [] OTHER -> Kill(m, {p \in 1..Len(m.P) : p # m.cur /\ m.P[p].root = m.ent})
Spawn(m0) ==
  LET s == m0.spawn[1]  m == NewProc([m0 EXCEPT !.spawn = <<>>], s.body, s.ent, s.lx, [Heir(m0, Ctx0) EXCEPT !.loc = s.loc])  id == Len(m.P)
      m1 == ConsumeAll(m) IN [m1 EXCEPT !.Q = Append(@, id)]
\* call frames of the loaded instance, outermost first
RECURSIVE FramesOf(_, _, _)
FramesOf(fr, top, acc) == IF fr = <<>> THEN <<[from |-> "", ent |-> top.ent, loc |-> top.loc]>> \o acc
                          ELSE FramesOf(fr[2], fr[1], <<[from |-> fr[1].from, ent |-> top.ent, loc |-> top.loc]>> \o acc)
\* the turn is over: queue the loaded instance again
EndTurn(m) ==
  CASE m.out = "Yield" -> (LET m1 == ConsumeAll(m) IN Pack([m1 EXCEPT !.Q = Append(@, m.cur)]))
    [] m.out \in {"Watch", "Pause"} -> Pack([m EXCEPT !.Q = <<m.cur>> \o @])
    [] m.out = "Term" -> ConsumeAll(Drop(Kill([m EXCEPT !.ov = [v |-> @.v, ent |-> @.ent, ul |-> m.x.ul]], {m.cur})))
    [] m.out = "Err" -> ConsumeAll(Drop(Kill([m EXCEPT !.ov = [cause |-> @.cause, l |-> @.l, n |-> @.n, ul |-> m.x.ul, ent |-> m.ent, frames |-> FramesOf(m.fr, m, <<>>)]], {m.cur})))
    [] OTHER -> m
Budget == 6000
MaxLists == 1000
\* one small step of the project within a turn
Step(m) ==
  IF m.out # "" THEN m
  ELSE IF m.cur = 0 THEN Pick(m)
  ELSE LET m1 == ProcStep(m)
           m2 == IF m1.act # <<>> THEN Act(m1) ELSE IF m1.spawn # <<>> THEN Spawn(m1) ELSE m1 IN
       IF m2.out # "" THEN EndTurn(m2) ELSE IF m2.cnt > Budget \/ Len(m2.h.L) > MaxLists THEN Taint(m2, "budget") ELSE m2
Chunk == Range0(120)
Run(m) == FoldLeft(LAMBDA a, i: Step(a), m, Chunk)
BeginTurn(m, turn) ==
  LET m1 == [m EXCEPT !.now = turn.t, !.out = "", !.ov = <<>>, !.ev = <<>>]
      m2 == FoldLeft(Input, m1, turn.in) IN
  IF Len(turn.msg) = 0 THEN m2 ELSE Message(m2, turn.msg[1])
=============================================================================
