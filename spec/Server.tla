-------------------------------- MODULE Server --------------------------------
(***************************************************************************)
(* The command-line tool.  A session is a list of operations by its user;  *)
(* between two of them, the tool carries on until it has come to rest.     *)
(*                                                                         *)
(*   mode "start"  the execution server: projects, inputs and the pause    *)
(*                 switch arrive over HTTP; output and errors are fetched  *)
(*   mode "pipe"   a project file is run, output goes into a file          *)
(*   mode "tty"    the same in a terminal: keys are the project's keys, or *)
(*                 the answer to the question its scripts asked first      *)
(*                                                                         *)
(* The state of the tool, besides the machine of the project it runs:      *)
(*   cur   which project is loaded (0: the empty one), run  paused or not  *)
(*   new   output since it was last fetched, all  all output,              *)
(*   errs  summaries of errors since they were last fetched                *)
(*   qs    questions asked and not answered, inp  the answer being typed   *)
(* Recorded sessions (FILE_TRACE) must be behaviours of this.              *)
(*   rows  the size of the terminal: the question is kept in its last row  *)
(***************************************************************************)
EXTENDS Trace

\* the projects of all sessions become the cases of the machine
ASSUME TLCSet(3, TLCGet(1)) /\ TLCSet(1, FlattenSeq([i \in 1..Len(TLCGet(3)) |-> TLCGet(3)[i].projs]))
Sess == TLCGet(3)[cid]
Mode == Sess.mode
Before == FoldLeft(LAMBDA a, i: a + Len(TLCGet(3)[i].projs), 0, Range0(cid - 1))
\* project i of the session; 0 is the empty project, which comes last in the list
MachineOf(i) == InitMachine(Before + (IF i = 0 THEN Len(Sess.projs) ELSE i))

(***************************************************************************)
(* Output: pieces of text, or anything up to the end of the line           *)
(***************************************************************************)
Lit0(s) == [any |-> FALSE, s |-> s]
AnyText == [any |-> TRUE, s |-> ""]
Why(s) == IF s = "*" THEN AnyText ELSE Lit0(s)
Put(v, ps) == [v EXCEPT !.new = @ \o ps, !.all = @ \o ps]
LineEnd(s, i) == LET S == {j \in i..Len(s) : Ch(s, j) \in {"\n", "\r"}} IN IF S = {} THEN Len(s) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k
\* how far s is covered by the pieces, or -1 - the number of the piece it departs from
Cover(ps, s) == FoldLeft(LAMBDA a, i: IF a < 0 THEN a ELSE
                   IF ps[i].any THEN LineEnd(s, a + 1) - 1
                   ELSE IF a + Len(ps[i].s) <= Len(s) /\ SubSeq(s, a + 1, a + Len(ps[i].s)) = ps[i].s THEN a + Len(ps[i].s) ELSE 0 - 1 - i, 0, Range0(Len(ps)))
OutputDiff(ps, s) ==
  LET c == Cover(ps, s) IN
  IF c = Len(s) THEN "" ELSE "output " \o ToJson(s) \o ", expected " \o (IF c < 0 THEN "piece " \o IntStr(0 - c - 1) \o " of " ELSE "the end after ") \o ToJson([i \in 1..Len(ps) |-> ps[i].s])

(***************************************************************************)
(* What a turn of the project shows                                        *)
(***************************************************************************)
Nl == IF Mode = "tty" THEN "\r\n" ELSE "\n"
EntText(i) == "Entity " \o Quote(m.E[i].name)
PrintText(e) == Lit0(EntText(e.ent) \o " > " \o e.text \o Nl)
VarTexts(f) == {<<n, Shown(m, m.V[f[n]])>> : n \in DOMAIN f}
\* the error which ended the turn: the variables its script could see, and the labelled blocks which led to it
Cause == IF StartsWith(m.ov.cause, "Custom:") THEN "Custom { msg: " \o Quote(SubSeq(m.ov.cause, 8, Len(m.ov.cause))) \o " }" ELSE m.ov.cause
Summary ==
  [cause |-> Cause, entity |-> m.E[m.ov.ent].name, globals |-> VarTexts(m.G), fields |-> VarTexts(m.E[m.ov.ent].fields),
   loose |-> m.ov.l = "" \/ \E i \in 1..Len(m.ov.frames) : i > 1 /\ m.ov.frames[i].from = "",
   trace |-> LET t == Labelled(m.ov.frames, m.ov.l) IN [i \in 1..Len(t) |-> [l |-> t[i].l, vars |-> VarTexts(t[i].loc)]]]
ErrorTexts ==
  IF Mode = "start" THEN <<Lit0("\n>>> runtime error in entity " \o Quote(m.E[m.ov.ent].name) \o ": " \o Quote(Cause) \o "\n>>> see red error comments...\n\n")>>
  ELSE <<Lit0(Nl \o ">>> runtime error: " \o Cause \o Nl \o Nl)>>
Waits(p) == m.P[p].x.defer # <<>> /\ (LET d == m.P[p].x.defer IN (d.k = "req" /\ d.p > 1000) \/ (d.k = "bar" /\ BarLive(m, d.b)))
Asking(p) == m.P[p].live /\ m.P[p].x.defer # <<>> /\ m.P[p].x.defer.k = "req" /\ m.P[p].x.defer.p > 1000
\* a script which has just asked
Asked(v) == LET S == {p \in 1..Len(m.P) : Asking(p) /\ \A i \in 1..Len(v.qs) : v.qs[i].p # p} IN S
Turned(v) == \* the tool's state after the turn m has made
  LET shown == SelectSeq(m.ev, LAMBDA e: e.k = "print" /\ Len(e.v) > 0)
      v1 == Put(v, [i \in 1..Len(shown) |-> PrintText(shown[i])])
      v2 == IF m.out # "Err" THEN v1 ELSE [Put(v1, ErrorTexts) EXCEPT !.errs = Append(@, Summary)]
      ask == SelectSeq(m.ev, LAMBDA e: e.k = "input")
      v3 == IF Asked(v2) = {} THEN v2
            ELSE [v2 EXCEPT !.qs = Append(@, [p |-> CHOOSE p \in Asked(v2) : TRUE, s |-> EntText(ask[1].ent) \o (IF ask[1].v = <<>> THEN " None > " ELSE " Some(" \o ask[1].text \o ") > ")])] IN
  IF m.out = "Pause" /\ Mode = "start" THEN [v3 EXCEPT !.run = FALSE] ELSE v3
\* nothing more can happen until the user does something
AtRest(v) == ~v.run \/ m.out = "Idle" \/ (m.out = "Yield" /\ (\A p \in 1..Len(m.P) : m.P[p].live => Waits(p)))
\* text which the specification cannot tell
Unclear == (\E i \in 1..Len(m.ev) : m.ev[i].k \in {"print", "input"} /\ m.ev[i].text = "?") \/ (m.out = "Err" /\ Len(m.ov.cause) > 0 /\ Ch(m.ov.cause, 1) = "~")

(***************************************************************************)
(* The operations: <<tool, machine, expected answer>>                      *)
(***************************************************************************)
Turn0(i) == [t |-> 0, in |-> i, msg |-> <<>>]
Inp(i) == BeginTurn(m, Turn0(<<i>>))
On(v) == BeginTurn(m, Turn0(<<>>))
Load0 == [run |-> TRUE, cur |-> 0, new |-> <<>>, all |-> <<>>, errs |-> <<>>, qs |-> <<>>, inp |-> "", rows |-> IF "rows" \in DOMAIN Sess THEN Sess.rows ELSE 0]
Keep == "\n>>> keeping previous project...\n\n"
Loaded(op) == Lit0("\n>>> loaded project '" \o op.name \o "'\n\n")
ServerOp(v, op) ==
  CASE op.o = "set" ->
         (CASE op.how = "ok" -> <<[Put(v, <<Loaded(op)>>) EXCEPT !.cur = op.p], MachineOf(op.p), [st |-> 200]>>
            [] op.how = "compile" -> <<Put(v, <<Loaded(op), Lit0("\n>>> project load error: "), Why(op.why), Lit0(Keep)>>), m, [st |-> 200]>>
            [] op.how = "error" -> <<Put(v, <<Lit0("\n>>> project load error: "), Why(op.why), Lit0(Keep)>>), m, [st |-> 200]>>
            [] OTHER -> <<[Put(v, <<Lit0("\n>>> project load error: " \o Quote(op.why) \o "\n>>> see red error comments..." \o Keep)>>)
                             EXCEPT !.errs = Append(@, [cause |-> op.why, entity |-> op.ent, globals |-> {}, fields |-> {}, loose |-> FALSE, trace |-> <<[l |-> op.lab, vars |-> {}]>>])], m, [st |-> 200]>>)
    [] op.o = "input" -> IF op.b = "start" THEN <<[v EXCEPT !.run = TRUE], Inp([k |-> "start"]), [st |-> 200]>>
                         ELSE IF op.b = "stop" THEN <<v, Inp([k |-> "stop"]), [st |-> 200]>> ELSE <<v, m, [st |-> 400]>>
    [] op.o = "raw" -> <<v, m, [st |-> 400]>>
    [] op.o = "toggle" -> <<[v EXCEPT !.run = ~@], m, [st |-> 200]>>
    [] op.o = "pull" -> <<[v EXCEPT !.new = <<>>, !.errs = <<>>], m, [st |-> 200, running |-> v.run]>>
    [] op.o = "get" -> <<v, m, [st |-> 200, p |-> v.cur]>>
    [] op.o = "ext" -> <<v, m, [st |-> 200, ok |-> TRUE]>>
    [] OTHER -> <<v, m, [st |-> 200, head |-> TRUE]>>
\* running a file: which project it is, or how the tool ends instead
Roles == Sess.projs
Chosen(op) == IF op.role = <<>> THEN (IF Len(Roles) = 1 THEN 1 ELSE 0) ELSE LET S == {i \in 1..Len(Roles) : Roles[i].name = op.role[1]} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Refused(op) ==
  IF ~op.file THEN [st |-> 1, err |-> "failed to read file "]
  ELSE IF op.bad = "read" THEN [st |-> 2, err |-> "failed to parse project: "]
  ELSE IF Chosen(op) # 0 THEN [st |-> 0, err |-> ""]
  ELSE IF op.role # <<>> THEN [st |-> 2, err |-> "no role named '" \o op.role[1] \o "'\n"]
  ELSE [st |-> 2, err |-> "project had multiple (" \o IntStr(Len(Roles)) \o ") roles, but a specific role was not specified\n"]
Answered(v) == LET p == v.qs[1].p IN IF Asking(p) THEN [m EXCEPT !.P[p].x.defer.p = 0, !.P[p].x.defer.v = T(v.inp)] ELSE m
Going == [st |-> 0 - 1, err |-> ""]
UserOp(v, op) ==
  CASE op.o = "type" -> IF v.qs # <<>> THEN <<[v EXCEPT !.inp = @ \o op.ch], m, Going>>
                        ELSE <<v, Inp([k |-> "key", key |-> IF op.ch = " " THEN "space" ELSE HatKey(op.ch)]), Going>>
    [] op.o = "done" -> <<v, m, [st |-> 0, err |-> ""]>>   \* it is killed
    [] op.o = "resize" -> <<[v EXCEPT !.rows = op.rows], m, Going>>
    [] op.key = "enter" -> IF v.qs = <<>> THEN <<v, m, Going>> ELSE <<[v EXCEPT !.qs = Tail(@), !.inp = ""], Answered(v), Going>>
    [] op.key = "backspace" -> IF v.qs = <<>> \/ v.inp = "" THEN <<v, m, Going>>
                               ELSE <<[v EXCEPT !.inp = LET c == CodePoints(v.inp) IN JoinStr([i \in 1..Len(c) - 1 |-> c[i][1]])], m, Going>>
    [] op.key = "esc" -> <<v, Inp([k |-> "stop"]), Going>>
    [] op.key = "quit" -> <<v, m, [st |-> 0, err |-> ""]>>
    [] op.key \in {"up arrow", "down arrow", "left arrow", "right arrow"} -> IF v.qs # <<>> THEN <<v, m, Going>> ELSE <<v, Inp([k |-> "key", key |-> op.key]), Going>>
    [] OTHER -> <<v, m, Going>>

(***************************************************************************)
(* Comparing answers                                                       *)
(***************************************************************************)
VarsOk(xs, rs) == Len(rs) = Cardinality(xs) /\ \A x \in xs : \E i \in 1..Len(rs) : rs[i].name = x[1] /\ (x[2] = "?" \/ rs[i].value = x[2])
SumOk(x, r) ==
  /\ x.cause = r.cause /\ x.entity = r.entity /\ VarsOk(x.globals, r.globals) /\ VarsOk(x.fields, r.fields)
  /\ x.loose \/ (Len(x.trace) = Len(r.trace) /\ \A i \in 1..Len(x.trace) : x.trace[i].l = r.trace[i].location /\ VarsOk(x.trace[i].vars, r.trace[i].locals))
ErrsDiff(xs, rs) ==
  IF Len(xs) # Len(rs) THEN "errors: expected " \o IntStr(Len(xs)) \o " got " \o ToJson(rs)
  ELSE LET S == {i \in 1..Len(xs) : ~SumOk(xs[i], rs[i])} IN IF S = {} THEN "" ELSE LET i == CHOOSE i \in S : TRUE IN "error summary: expected " \o ToString(xs[i]) \o " got " \o ToJson(rs[i])
\* v0: the tool before the operation was noted, v: after it came to rest
AnswerDiff(op, v0, v, x, r) ==
  IF "lost" \in DOMAIN r THEN "the tool failed: " \o r.lost
  ELSE IF \E k \in DOMAIN x \ {"err"} : k \notin DOMAIN r \/ r[k] # x[k] THEN "answer: expected " \o ToJson(x) \o " got " \o ToJson(r)
  ELSE IF Mode = "start" THEN
    (CASE op.o = "pull" -> (LET d == OutputDiff(v0.new, r.output) IN IF d # "" THEN d ELSE ErrsDiff(v0.errs, r.errors))
       [] op.o = "end" -> OutputDiff(v.all, r.text)
       [] OTHER -> "")
  ELSE IF "files" \in DOMAIN r /\ FilesDiff(IF op.o = "done" THEN Stopped(m.F) ELSE Ended(m.F), r.files) # "" THEN FilesDiff(IF op.o = "done" THEN Stopped(m.F) ELSE Ended(m.F), r.files)
  ELSE IF ~StartsWith(r.err, x.err) \/ (x.err = "" /\ r.err # "") THEN "message: expected " \o x.err \o " got " \o r.err
  ELSE IF op.o = "run" /\ (~r.head \/ (x.st = 0 - 1 /\ r.proj # op.title)) THEN "public id: " \o ToJson(r)
  ELSE LET d == OutputDiff(v.new, r.out)  line == IF v.qs = <<>> \/ x.st # 0 - 1 THEN "" ELSE v.qs[1].s \o v.inp IN
    IF d # "" THEN d ELSE IF Mode = "tty" /\ r.line # line THEN "the line at the bottom: expected " \o line \o " got " \o r.line
    ELSE IF Mode = "tty" /\ x.st = 0 - 1 /\ (op.o = "resize" \/ r.row # 0) /\ r.row # (IF v.rows = 0 THEN 1 ELSE v.rows) THEN "drawn in row " \o IntStr(r.row) \o " of " \o IntStr(v.rows) ELSE ""

(***************************************************************************)
(* The checker: sv = [v tool, v0, x expected answer]                       *)
(***************************************************************************)
Recd == Tr.res
SInit == cid \in 1..Len(TLCGet(3)) /\ m = <<>> /\ tn = 0 /\ ph = "init" /\ sv = <<>>
SStart == ph = "init" /\ m' = (IF Mode = "start" THEN MachineOf(0) ELSE <<>>) /\ sv' = [v |-> Load0, v0 |-> Load0, x |-> Going, k |-> 0] /\ ph' = "turn" /\ UNCHANGED <<cid, tn>>
RunOp(op) == \* the first operation of the other modes
  LET ref == Refused(op)  late == op.bad = "compile" IN
  IF ref.st # 0 THEN sv' = [v |-> Load0, v0 |-> Load0, x |-> ref, k |-> 0] /\ ph' = "cmp" /\ UNCHANGED m
  ELSE IF late THEN /\ sv' = [v |-> Put(Load0, <<Lit0(IF Mode = "tty" THEN "error loading project: " ELSE "\n>>> error loading project: "), AnyText, Lit0(Nl)>>), v0 |-> Load0, x |-> [st |-> 0, err |-> ""], k |-> 0]
                    /\ ph' = "cmp" /\ UNCHANGED m
  ELSE /\ m' = BeginTurn(MachineOf(Chosen(op)), Turn0(<<[k |-> "start"]>>)) /\ ph' = "run"
       /\ sv' = [v |-> IF Mode = "tty" THEN Load0 ELSE Put(Load0, <<Lit0("\n")>>), v0 |-> Load0, x |-> Going, k |-> 0]
\* every turn has the budget of its own
Anew(m0) == [BeginTurn(m0, Turn0(<<>>)) EXCEPT !.cnt = 0]
STurn ==
  /\ ph = "turn"
  /\ IF tn = Len(Sess.ops) \/ (tn > 0 /\ Mode # "start" /\ sv.x.st # 0 - 1) THEN Finish("ok", "")
     ELSE LET op == Sess.ops[tn + 1]  v == IF Mode = "start" THEN sv.v ELSE [sv.v EXCEPT !.new = <<>>] IN
       /\ tn' = tn + 1 /\ UNCHANGED cid
       /\ IF op.o = "run" THEN RunOp(op)
          ELSE LET z == IF Mode = "start" THEN ServerOp(v, op) ELSE UserOp(v, op) IN
            /\ sv' = [v |-> z[1], v0 |-> v, x |-> z[3], k |-> 0]
            /\ IF op.o \in {"pull", "get", "ext", "end", "raw"} \/ z[3].st \in {0, 400} \/ ~z[1].run THEN m' = z[2] /\ ph' = "cmp"
               ELSE m' = Anew(z[2]) /\ ph' = "run"
SRun ==
  /\ ph = "run"
  /\ IF m.out = "" THEN m' = Run(m) /\ UNCHANGED <<cid, tn, ph, sv>>
     ELSE IF m.taint # "" THEN Finish("taint", m.taint)
     ELSE IF Unclear THEN Finish("taint", "inexact text")
     ELSE IF sv.k > 3000 THEN Finish("taint", "budget")
     ELSE LET v == Turned(sv.v) IN
       /\ sv' = [sv EXCEPT !.v = v, !.k = @ + 1] /\ UNCHANGED <<cid, tn>>
       /\ IF AtRest(v) THEN ph' = "cmp" /\ UNCHANGED m ELSE m' = Anew(m) /\ UNCHANGED ph
SCmp ==
  /\ ph = "cmp"
  /\ IF tn > Len(Recd) THEN Finish("bad", "the record ends early")
     ELSE LET d == AnswerDiff(Sess.ops[tn], sv.v0, sv.v, sv.x, Recd[tn]) IN
       IF d # "" THEN Finish("bad", d) ELSE ph' = "turn" /\ UNCHANGED <<cid, tn, m, sv>>
SNext == SStart \/ STurn \/ SRun \/ SCmp
SView == <<cid, tn, ph, IF ph = "run" THEN <<sv.k, m.cnt, m.out>> ELSE <<0, "">>>>
=============================================================================
