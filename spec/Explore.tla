------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Every history of a small project: before each turn the environment      *)
(* picks an entry of the project's menu (what happens: inputs, a network   *)
(* message, time passing).  TLC checks the scheduler's theorems below in   *)
(* every state and step, and prints every transition's history so that it  *)
(* can be replayed on the real VM.                                         *)
(*                                                                         *)
(*   m  the machine (Sched)      k  turns begun     hist  entries picked   *)
(*   ck what the last step was, in the words of the theorems               *)
(*   ov pairs <<p, q>>: while p waited in the ready queue, q had a turn    *)
(*   gone  the clones which were deleted                                   *)
(***************************************************************************)
EXTENDS Sched
VARIABLES m, k, hist, ck, ovt, gone
vars == <<m, k, hist, ck, ovt, gone>>

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.FILE_CASES))
Depth == atoi(IOEnv.DEPTH)
Menu == Cases[1].menu

Nothing == [k |-> "none"]
Init == m = [InitMachine(1) EXCEPT !.out = "Idle"] /\ k = 0 /\ hist = <<>> /\ ck = Nothing /\ ovt = {} /\ gone = {}
Begin ==
  /\ m.out # "" /\ k < Depth
  /\ \E i \in 1..Len(Menu) :
       /\ m' = BeginTurn(m, [t |-> m.now + Menu[i].t, in |-> Menu[i].in, msg |-> Menu[i].msg])
       /\ hist' = Append(hist, i) /\ ck' = [k |-> "begin", i |-> i]
       /\ PrintT("HIST\t" \o ToJson(hist'))
  /\ k' = k + 1 /\ UNCHANGED <<ovt, gone>>
Held(mm) == {mm.Q[i] : i \in 1..Len(mm.Q)}
Work ==
  /\ m.out = ""
  /\ LET a == IF m.cur = 0 THEN m ELSE ProcStep(m)
         kind == IF m.cur = 0 THEN [k |-> "pick"]
                 ELSE IF a.act # <<>> THEN a.act
                 ELSE IF a.spawn # <<>> THEN [k |-> "fork"]
                 ELSE IF m.x.defer # <<>> /\ a.out = "" THEN [k |-> "resume", d |-> m.x.defer, p |-> m.cur]
                 ELSE IF a.out # "" THEN [k |-> "end", out |-> a.out, p |-> m.cur, waits |-> a.x.defer # <<>>]
                 ELSE [k |-> "run"] IN
     /\ m' = Step(m) /\ ck' = kind
     /\ ovt' = IF kind.k = "pick" /\ m'.cur # 0
               THEN {z \in ovt : z[1] # m'.cur /\ m'.P[z[1]].live} \cup {<<p, m'.cur>> : p \in {q \in Held(m') : m'.P[q].live}}
               ELSE IF kind.k = "end" /\ kind.out \in {"Watch", "Pause"} THEN {z \in ovt : z[2] # kind.p} ELSE ovt
     /\ gone' = IF kind.k = "delete" THEN gone \cup {kind.of} ELSE gone
  /\ UNCHANGED <<k, hist>>
Next == Begin \/ Work

(***************************************************************************)
(* What a state is worth looking at again for: instances by rank, variables*)
(* by value, clock by what is left to wait                                 *)
(***************************************************************************)
Live == {p \in 1..Len(m.P) : m.P[p].live}
Rank(p) == IF p = 0 THEN 0 ELSE IF m.P[p].live THEN Cardinality({q \in Live : q <= p}) ELSE 0
Bars == {m.P[p].x.bar : p \in Live} \cup {m.x.bar} \cup UNION {{m.S[s].q[i].bar : i \in 1..Len(m.S[s].q)} : s \in 1..Len(m.S)}
        \cup {m.P[p].x.defer.b : p \in {q \in Live : m.P[q].x.defer # <<>> /\ m.P[q].x.defer.k = "bar"}} \cup (IF m.x.defer # <<>> /\ m.x.defer.k = "bar" THEN {m.x.defer.b} ELSE {})
BarRank(b) == IF b = 0 THEN 0 ELSE Cardinality({c \in Bars : c <= b})
ValuesOf(f) == [n \in DOMAIN f |-> m.V[f[n]]]
XView(x) == [x EXCEPT !.lin = 0, !.at = 0, !.bar = BarRank(@), !.defer = IF @ = <<>> THEN <<>> ELSE IF @.k = "bar" THEN [@ EXCEPT !.b = BarRank(@)] ELSE IF @.k = "sleep" THEN [@ EXCEPT !.until = IF @ > m.now THEN @ - m.now ELSE 0] ELSE @]
RECURSIVE FrView(_)
FrView(fr) == IF fr = <<>> THEN <<>> ELSE <<[fr[1] EXCEPT !.loc = ValuesOf(@)], FrView(fr[2])>>
PView(q) == <<q.root, q.todo, q.vals, ValuesOf(q.loc), q.ent, q.lx, q.warp, FrView(q.fr), q.hs, XView(q.x)>>
SView(s) == <<s.ent, s.hat, s.body, Rank(s.proc), [i \in 1..Len(s.q) |-> [s.q[i] EXCEPT !.loc = ValuesOf(@), !.bar = BarRank(@), !.lin = 0, !.at = 0]]>>
View ==
  <<k, m.out = "", Rank(m.cur), IF m.cur = 0 THEN <<>> ELSE <<m.todo, m.vals, ValuesOf(m.loc), m.ent, m.lx, m.warp, FrView(m.fr), m.hs, XView(m.x)>>,
    [i \in 1..Len(m.S) |-> SView(m.S[i])], [i \in 1..Len(m.Q) |-> IF m.P[m.Q[i]].live THEN <<Rank(m.Q[i]), PView(m.P[m.Q[i]])>> ELSE <<>>],
    [i \in 1..Len(m.E) |-> <<m.E[i].name, m.E[i].orig, ValuesOf(m.E[i].fields), m.E[i].props, m.E[i].costume>>], ValuesOf(m.G),
    IF m.C = <<>> THEN <<>> ELSE <<m.C, m.V, [p \in Live |-> m.P[p].loc], m.loc>>, m.h, m.hi, m.pi, IF Cases[1].env.clock THEN m.now - m.ts ELSE 0, {<<Rank(z[1]), Rank(z[2])>> : z \in {y \in ovt : m.P[y[2]].live}}, gone>>

(***************************************************************************)
(* Theorems: states                                                        *)
(***************************************************************************)
Budgeted == m.taint = ""     \* nothing the specification leaves undecided happens in these projects
Times(p) == Cardinality({i \in 1..Len(m.Q) : m.Q[i] = p}) + (IF m.cur = p THEN 1 ELSE 0)
\* every live instance is queued once, or is the one running (C01: no instance is lost or has two places)
QueuedOnce == \A p \in Live : Times(p) = 1
\* a script has at most one instance, and an instance belongs to at most one script (C02)
OneInstance == \A i, j \in 1..Len(m.S) : i # j /\ m.S[i].proc # 0 /\ m.S[i].proc = m.S[j].proc => ~m.P[m.S[i].proc].live
\* a turn which reports that there is nothing to do is right: nothing is alive and nothing waits (C02, C04)
IdleIsIdle == m.out = "Idle" => Live = {} /\ m.Q = <<>> /\ m.cur = 0 /\ \A i \in 1..Len(m.S) : m.S[i].q = <<>>
\* between turns nothing is loaded
BetweenTurns == m.out # "" => m.cur = 0
\* calls are counted, and bounded (C09)
RECURSIVE Depth2(_)
Depth2(fr) == IF fr = <<>> THEN 0 ELSE 1 + Depth2(fr[2])
CallDepth == (m.cur # 0 => m.dep = 1 + Depth2(m.fr)) /\ \A p \in Live : p # m.cur => m.P[p].dep = 1 + Depth2(m.P[p].fr) /\ m.P[p].dep <= Cases[1].env.maxdepth
\* an installed handler belongs to a call that is still active, inner ones first (C10)
RECURSIVE HandlersOk(_, _)
HandlersOk(hs, d) == hs = <<>> \/ (hs[1].d <= d /\ HandlersOk(hs[2], hs[1].d))
Handlers == (m.cur # 0 => HandlersOk(m.hs, m.dep)) /\ \A p \in Live : p # m.cur => HandlersOk(m.P[p].hs, m.P[p].dep)
\* scripts belong to sprites that exist: none to a deleted clone (C06)
NoScriptsOfDeleted == \A i \in 1..Len(m.S) : m.S[i].ent \notin gone
\* an instance waits for a barrier only while somebody may still hold it, or is queued to find out (C03)
BarsIssued == \A p \in Live : m.P[p].x.bar <= m.nb

(***************************************************************************)
(* Theorems: steps                                                         *)
(***************************************************************************)
LiveIn(mm) == {p \in 1..Len(mm.P) : mm.P[p].live}
New == LiveIn(m') \ LiveIn(m)
Lost == LiveIn(m) \ LiveIn(m')
\* C01: round robin; an instance which is warped gives up its turn only to wait for something
Fair == ck'.k = "pick" /\ m'.cur # 0 => ~\E p \in Held(m') : m'.P[p].live /\ <<p, m'.cur>> \in ovt
Warped == ck'.k = "end" /\ ck'.out = "Yield" => m.warp = 0 \/ ck'.waits
\* nothing ends an instance but its own end, a stop, a restart or a deletion
Mortal == (Lost # {} => \/ ck'.k \in {"begin", "cast", "delete", "abort"}
                        \/ ck'.k = "end" /\ ck'.out \in {"Term", "Err"} /\ Lost = {ck'.p})
\* instances begin only by an input, a broadcast, a clone, a launch, or when the script's previous one is over
Born == New # {} => ck'.k \in {"begin", "cast", "clone", "fork", "delete", "abort", "end"}
\* the end of an instance leaves the others, and starts the oldest activation waiting for its script (C02, C04)
NextOfQueue == ck'.k = "end" /\ ck'.out \in {"Term", "Err"} =>
  /\ ~m'.P[ck'.p].live
  /\ \A i \in 1..Len(m.S) : LET s == m.S[i]  t == m'.S[i] IN
       IF s.proc = ck'.p /\ s.q # <<>> THEN t.proc # 0 /\ m'.P[t.proc].live /\ m'.P[t.proc].loc = s.q[1].loc /\ m'.P[t.proc].x.rk = s.q[1].rk /\ t.q = Tail(s.q)
       ELSE (s.proc # 0 /\ m.P[s.proc].live /\ s.proc # ck'.p) => t = s
\* activations wait in order: steps take from the front of a script's queue and add to its back, or clear it (C02, C04)
Fifo == Len(m.S) = Len(m'.S) => \A i \in 1..Len(m.S) : LET a == m.S[i].q  b == m'.S[i].q IN
  m.S[i].ent # m'.S[i].ent \/ b = <<>> \/ \E d \in 0..Len(a) : Len(b) >= Len(a) - d /\ SubSeq(b, 1, Len(a) - d) = SubSeq(a, d + 1, Len(a))
\* only inputs, messages, stops, restarts and deletions change how much waits, other than by starting it
NothingDropped == ck'.k \notin {"begin", "cast", "abort", "delete", "clone"} => \A i \in 1..Len(m.S) :
  Len(m'.S[i].q) = Len(m.S[i].q) \/ (Len(m'.S[i].q) = Len(m.S[i].q) - 1 /\ m'.S[i].proc # m.S[i].proc)

\* inputs (C02)
HasIn(i, kd) == \E j \in 1..Len(Menu[i].in) : Menu[i].in[j].k = kd
Alone(i, kd) == Len(Menu[i].in) = 1 /\ Menu[i].in[1].k = kd /\ Len(Menu[i].msg) = 0
FlagStarts == ck'.k = "begin" /\ Alone(ck'.i, "start") =>
  /\ \A s \in 1..Len(m.S) : m.S[s].hat[1] = "flag" => m'.S[s].proc \in New /\ m'.S[s].q = <<>>
  /\ \A p \in Live : (\A s \in 1..Len(m.S) : m.S[s].hat[1] = "flag" => m.S[s].proc # p) => p \in LiveIn(m')
\* a script the host adds comes after all others and waits to be triggered; nothing else changes (C31)
Adds == ck'.k = "begin" /\ Alone(ck'.i, "add") =>
  LET k2 == Len(m.S) + 1  s == m'.S[k2] IN
  /\ Len(m'.S) = k2 /\ SubSeq(m'.S, 1, k2 - 1) = m.S /\ s.hat = Menu[ck'.i].in[1].hat /\ s.proc = 0 /\ s.q = <<>>
  /\ m'.P = m.P /\ m'.Q = m.Q /\ m'.E = m.E /\ m'.G = m.G /\ m'.V = m.V
StopStops == ck'.k = "begin" /\ Alone(ck'.i, "stop") => LiveIn(m') = {} /\ m'.Q = <<>> /\ \A s \in 1..Len(m.S) : m'.S[s].q = <<>>
KeyStarts == ck'.k = "begin" /\ Alone(ck'.i, "key") => Lost = {} /\
  \A s \in 1..Len(m.S) : LET hit == m.S[s].hat[1] = "key" /\ m.S[s].hat[2] \in {"any key", Menu[ck'.i].in[1].key} IN
     IF hit THEN m'.S[s].proc # 0 /\ m'.P[m'.S[s].proc].live /\ (Alive(m, m.S[s].proc) => m'.S[s].proc = m.S[s].proc) ELSE m'.S[s].proc = m.S[s].proc
EventQueues == ck'.k = "begin" /\ Alone(ck'.i, "ev") => LET e == Menu[ck'.i].in[1] IN
  \A s \in 1..Len(m.S) : m.S[s].hat[1] = "ev" /\ m.S[s].hat[2] = e.name =>
     IF e.int \/ ~Alive(m, m.S[s].proc) THEN m'.S[s].proc \in New
     ELSE m'.S[s].proc = m.S[s].proc /\ SubSeq(m'.S[s].q, 1, Len(m.S[s].q)) = m.S[s].q /\ Len(m'.S[s].q) = (IF e.mq < 0 \/ Len(m.S[s].q) < e.mq THEN Len(m.S[s].q) + 1 ELSE Len(m.S[s].q))
\* network messages: every handler runs once for each, in order, whatever it is doing now (C04)
MessagesQueue == ck'.k = "begin" /\ Len(Menu[ck'.i].msg) = 1 /\ Len(Menu[ck'.i].in) = 0 => Lost = {} /\
  \A s \in 1..Len(m.S) : LET hit == m.S[s].hat[1] = "net" /\ m.S[s].hat[2] = Menu[ck'.i].msg[1].type IN
     IF ~hit THEN m'.S[s] = m.S[s]
     ELSE IF Alive(m, m.S[s].proc) THEN m'.S[s].proc = m.S[s].proc /\ Len(m'.S[s].q) = Len(m.S[s].q) + 1 /\ m'.S[s].q[Len(m'.S[s].q)].rk = Menu[ck'.i].msg[1].rk
     ELSE m'.S[s].proc \in New /\ m'.P[m'.S[s].proc].x.rk = Menu[ck'.i].msg[1].rk
\* broadcasts restart every receiver with the message, and no other script (C03)
Receives(s, a) == (s.hat[1] = "anymsg" \/ (s.hat[1] = "msg" /\ s.hat[2] = a.msg)) /\ (a.all \/ \E i \in 1..Len(a.to) : a.to[i] = s.ent)
Broadcasts == ck'.k = "cast" =>
  /\ \A i \in 1..Len(m.S) : IF Receives(m.S[i], ck') THEN m'.S[i].proc \in New /\ m'.P[m'.S[i].proc].x.msg = <<T(ck'.msg)>> /\ m'.S[i].q = <<>>
                                                         /\ (ck'.wait => m'.P[m'.S[i].proc].x.bar = m'.nb) ELSE m'.S[i] = m.S[i]
  /\ Lost \subseteq {m.S[i].proc : i \in {j \in 1..Len(m.S) : Receives(m.S[j], ck')}}
  /\ m'.cur # 0 /\ ck'.wait => m'.x.defer # <<>> /\ m'.x.defer.k = "bar"
\* broadcast and wait goes on only when all the scripts it started are over or restarted (C03)
Waits == ck'.k = "resume" /\ ck'.d.k = "bar" => \A p \in Live : p # m.cur => m.P[p].x.bar # ck'.d.b
\* nobody sleeps shorter than asked (C18)
Sleeps == ck'.k = "resume" /\ ck'.d.k = "sleep" => m.now >= ck'.d.until
\* stop blocks (C05)
Stops == ck'.k = "abort" =>
  CASE ck'.mode = "current" -> Lost = {m.cur} /\ m'.cur = 0
    [] ck'.mode = "all" -> LiveIn(m') = {} /\ m'.cur = 0 /\ \A i \in 1..Len(m'.S) : m'.S[i].q = <<>>
    [] ck'.mode = "others" -> LiveIn(m') = {m.cur} /\ m'.cur = m.cur
    [] OTHER -> Lost = {p \in Live : p # m.cur /\ m.P[p].root = m.ent} /\ m'.cur = m.cur
\* clones (C06)
Clones == ck'.k = "clone" =>
  LET id == Len(m'.E)  root == IF m.E[ck'.of].orig = 0 THEN ck'.of ELSE m.E[ck'.of].orig
      S1 == {i \in 1..Len(m.S) : m.S[i].ent = root}  S2 == {i \in 1..Len(m'.S) : m'.S[i].ent = id} IN
  /\ Len(m'.E) = Len(m.E) + 1 /\ Lost = {} /\ m'.cur = m.cur
  /\ Cardinality(S1) = Cardinality(S2)
  /\ \A i \in S2 : m'.S[i].proc \in (IF m'.S[i].hat[1] = "clone" THEN New ELSE {0})
  /\ \A f \in DOMAIN m.E[ck'.of].fields : m'.V[m'.E[id].fields[f]] = m.V[m.E[ck'.of].fields[f]] /\ m'.E[id].fields[f] # m.E[ck'.of].fields[f]
Deletes == ck'.k = "delete" => Lost = {p \in Live : m.P[p].root = ck'.of} /\ m.E[ck'.of].orig # 0 /\ \A i \in 1..Len(m'.S) : m'.S[i].ent # ck'.of
\* launched scripts run beside the launching one, which goes on (C08)
Forks == ck'.k = "fork" => Cardinality(New) >= 1 /\ Lost = {} /\ m'.cur = m.cur
PFair == [][Fair]_vars
PWarped == [][Warped]_vars
PMortal == [][Mortal]_vars
PBorn == [][Born]_vars
PNextOfQueue == [][NextOfQueue]_vars
PFifo == [][Fifo]_vars
PNothingDropped == [][NothingDropped]_vars
PFlagStarts == [][FlagStarts]_vars
PStopStops == [][StopStops]_vars
PAdds == [][Adds]_vars
PKeyStarts == [][KeyStarts]_vars
PEventQueues == [][EventQueues]_vars
PMessagesQueue == [][MessagesQueue]_vars
PBroadcasts == [][Broadcasts]_vars
PWaits == [][Waits]_vars
PSleeps == [][Sleeps]_vars
PStops == [][Stops]_vars
PClones == [][Clones]_vars
PDeletes == [][Deletes]_vars
PForks == [][Forks]_vars
=============================================================================
