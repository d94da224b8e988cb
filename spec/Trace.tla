-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: executions recorded from the real VM must be behaviours of *)
(* the specification.  Every case of FILE_CASES is run by the              *)
(* specification under the same inputs, clock, messages and host answers,  *)
(* and everything observable in the record of FILE_TRACE is compared at    *)
(* the end of every turn: what ended the turn, what was sent to the host   *)
(* (in order), results, errors, call frames, and the project state.        *)
(***************************************************************************)
EXTENDS Sched
VARIABLES cid, m, tn, ph, sv      \* sv: the machine before the turn, where turns stand alone

\* both files are read once, into TLC's registers
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.FILE_CASES)) /\ TLCSet(2, ndJsonDeserialize(IOEnv.FILE_TRACE))
Traces == TLCGet(2)

(***************************************************************************)
(* Comparing an expected value (may be inexact or unknown) with a record   *)
(***************************************************************************)
Near(e, r) ==
  IF r.t = "u" THEN (r.o = 0 /\ Abs(r.m - e.m) <= e.e + 1)
  ELSE LET b == Bounds(r) IN IF ~b[1] THEN FALSE ELSE b[2] <= e.m + e.e + 1 /\ b[3] >= e.m - e.e - 1
NumFar(e, r) == r.t = "n" /\ ~Bounds(r)[1] /\ Abs(e.m) >= 399000000
RECURSIVE MatchV(_, _)
MatchV(e, r) ==
  CASE e.t = "n" -> r.t = "n" /\ r.n = e.n /\ r.k = e.k
    [] e.t = "a" -> r.t \in {"n", "u"} /\ (Near(e, r) \/ NumFar(e, r))
    [] e.t = "u" -> IF e.y = "n" THEN r.t \in {"n", "u"} /\ ("w" \in DOMAIN e => "w" \in DOMAIN r /\ r.w = e.w) ELSE r.t = "s"
    [] e.t = "s" -> r.t = "s" /\ r.s = e.s
    [] e.t = "b" -> r.t = "b" /\ r.b = e.b
    [] e.t = "l" -> r.t = "l" /\ Len(r.e) = Len(e.e) /\ \A i \in 1..Len(e.e) : MatchV(e.e[i], r.e[i])
    [] e.t = "r" -> r.t = "r" /\ r.r = e.r
    [] e.t = "c" -> r.t = "c" /\ r.id = e.id
    [] e.t = "e" -> r.t = "e" /\ r.e = e.e
    [] e.t = "i" -> r.t = "i" /\ r.i = e.i /\ Len(r.cx) = Len(e.cx) /\ \A i \in 1..Len(e.cx) : MatchV(e.cx[i], r.cx[i])
    [] e.t = "au" -> r.t = "au" /\ r.au = e.au
    [] OTHER -> FALSE
MatchSeq(es, rs) == Len(es) = Len(rs) /\ \A i \in 1..Len(es) : MatchV(es[i], rs[i])
MatchText(e, r) == IF Len(e) > 0 /\ Ch(e, 1) = "~" THEN StartsWith(r, SubSeq(e, 2, Len(e))) ELSE e = r
MatchEv(e, r) ==
  /\ e.e = r.e /\ e.k = r.k
  /\ CASE e.e = "msg" -> e.names = r.names /\ e.s = r.s /\ e.reply = r.reply /\ MatchSeq(e.v, r.v)
       [] e.e = "rep" -> MatchSeq(e.v, r.v)
       [] OTHER -> e.ent = r.ent /\ e.s = r.s /\ e.ul = r.ul /\ MatchSeq(e.v, r.v)
                    /\ (Len(r.by) = 0 \/ e.by = r.by \/ (e.by[1] < 0 /\ SubSeq(e.by, 3, 5) = SubSeq(r.by, 3, 5)))
                    /\ r.via = Via(m, e.e, e.k)
\* a map name -> cell against a recorded list of pairs: the names agree; the values in recorded order
SameNames(f, ps) == Len(ps) = Cardinality(DOMAIN f) /\ \A i \in 1..Len(ps) : ps[i][1] \in DOMAIN f
ValsOf(f, ps) == [i \in 1..Len(ps) |-> m.V[f[ps[i][1]]]]
Recs(ps) == [i \in 1..Len(ps) |-> ps[i][2]]
MatchFrame(e, r) == e.ent = r.ent /\ (e.from = "" \/ e.from = r.from) /\ SameNames(e.loc, r.loc) /\ MatchSeq(EncAll(m.h, ValsOf(e.loc, r.loc)), Recs(r.loc))
\* the summary of an error must agree with the recorded frames
DbgText(v) == IF v.t = "s" THEN Quote(v.s) ELSE "?"
SumVars(f, ps) == SameNames(f, ps) /\ \A i \in 1..Len(ps) : LET v == m.V[f[ps[i][1]]] IN
  CASE v.t = "s" -> ps[i][2] = Quote(v.s) [] v.t = "n" -> NumStr(v) = "" \/ ps[i][2] = NumStr(v) [] v.t = "b" -> ps[i][2] = (IF v.b THEN "true" ELSE "false") [] OTHER -> TRUE
Labelled(fs, l) == \* positions of the frames whose call site (or, for the last, the error) carries a label
  SelectSeq([i \in 1..Len(fs) |-> [l |-> IF i = Len(fs) THEN l ELSE fs[i + 1].from, loc |-> fs[i].loc]], LAMBDA t: t.l # "")
MatchSum(e, s, l) ==
  /\ s.entity = m.E[e.ent].name
  /\ SumVars(m.G, s.globals) /\ SumVars(m.E[e.ent].fields, s.fields)
  /\ (l = "" \/ \E i \in 1..Len(e.frames) : i > 1 /\ e.frames[i].from = "") \/
     (LET t == Labelled(e.frames, l) IN Len(t) = Len(s.trace) /\ \A i \in 1..Len(t) : t[i].l = s.trace[i].l /\ SumVars(t[i].loc, s.trace[i].locals))
EntIdx(name) == CHOOSE i \in 1..Len(m.E) : m.E[i].orig = 0 /\ m.E[i].name = name
SnapParts(s) == \* expected and recorded values, in recorded order
  LET es == [i \in 1..Len(s.ents) |-> m.E[EntIdx(s.ents[i].name)]] IN
  <<FoldLeft(LAMBDA a, i: a \o ValsOf(es[i].fields, s.ents[i].fields) \o <<es[i].costume>> \o [k \in 1..Len(es[i].costumes) |-> es[i].costumes[k][2]] \o [k \in 1..Len(es[i].sounds) |-> es[i].sounds[k][2]], ValsOf(m.G, s.globals), Range0(Len(es))),
    FoldLeft(LAMBDA a, e: a \o Recs(e.fields) \o <<e.costume>> \o Recs(e.costumes) \o Recs(e.sounds), Recs(s.globals), s.ents),
    FoldLeft(LAMBDA a, e: a \o [i \in 1..Len(e.fields) |-> e.name \o "." \o e.fields[i][1]] \o <<e.name \o " costume">> \o [i \in 1..Len(e.costumes) |-> e.name \o " costume " \o e.costumes[i][1]] \o [i \in 1..Len(e.sounds) |-> e.name \o " sound " \o e.sounds[i][1]],
             [i \in 1..Len(s.globals) |-> s.globals[i][1]], s.ents)>>
MatchSnap(s) ==
  /\ SameNames(m.G, s.globals)
  /\ Len(s.ents) = Cardinality({i \in 1..Len(m.E) : m.E[i].orig = 0})
  /\ \A i \in 1..Len(s.ents) : \E j \in 1..Len(m.E) : m.E[j].orig = 0 /\ m.E[j].name = s.ents[i].name /\ s.ents[i].id = j /\ SameNames(m.E[j].fields, s.ents[i].fields)
       /\ [k \in 1..Len(m.E[j].costumes) |-> m.E[j].costumes[k][1]] = [k \in 1..Len(s.ents[i].costumes) |-> s.ents[i].costumes[k][1]]
       /\ [k \in 1..Len(m.E[j].sounds) |-> m.E[j].sounds[k][1]] = [k \in 1..Len(s.ents[i].sounds) |-> s.ents[i].sounds[k][1]]
       /\ MatchSeq(m.E[j].props, s.ents[i].props)
  /\ LET z == SnapParts(s) IN MatchSeq(EncAll(m.h, z[1]), z[2])
\* "" or what differs
EvDiff(es, rs) ==
  LET k == Min2(Len(es), Len(rs))  S == {i \in 1..k : ~MatchEv(es[i], rs[i])} IN
  IF S # {} THEN LET i == CHOOSE i \in S : \A j \in S : i <= j IN "event " \o IntStr(i) \o ": expected " \o ToJson(es[i]) \o " got " \o ToJson(rs[i])
  ELSE IF Len(es) > k THEN "missing event " \o ToJson(es[k + 1]) ELSE IF Len(rs) > k THEN "extra event " \o ToJson(rs[k + 1]) ELSE ""
OutDiff(r) ==
  CASE m.out = "Term" -> (IF ~MatchSeq(m.ov.v, r.v) THEN "result: expected " \o ToJson(m.ov.v) \o " got " \o ToJson(r.v)
                          ELSE IF m.ov.ul # r.ul \/ m.ov.ent # r.ent THEN "terminated: expected " \o ToJson(m.ov) \o " got " \o ToJson(r) ELSE "")
    [] m.out = "Watch" -> IF m.ov.create = r.create /\ m.ov.name = r.name /\ m.ov.ent = r.ent /\ MatchSeq(m.ov.v, r.v) THEN "" ELSE "watcher: expected " \o ToJson(m.ov) \o " got " \o ToJson(r)
    [] m.out = "Err" ->
         (IF ~MatchText(m.ov.cause, r.cause) THEN "error: expected " \o m.ov.cause \o " (block " \o IntStr(m.ov.n) \o ") got " \o r.cause
          ELSE IF m.ov.l # "" /\ m.ov.l # r.l THEN "error location: expected " \o m.ov.l \o " got " \o r.l
          ELSE IF m.ov.ul # r.ul THEN "error state: expected " \o IntStr(m.ov.ul) \o " got " \o IntStr(r.ul)
          ELSE IF Len(m.ov.frames) # Len(r.frames) THEN "frames: expected " \o IntStr(Len(m.ov.frames)) \o " got " \o IntStr(Len(r.frames))
          ELSE LET S == {i \in 1..Len(r.frames) : ~MatchFrame(m.ov.frames[i], r.frames[i])} IN
            IF S # {} THEN (LET i == CHOOSE i \in S : \A j \in S : i <= j IN "frame " \o IntStr(i) \o " of " \o IntStr(Len(r.frames)) \o ": expected " \o ToJson([from |-> m.ov.frames[i].from, ent |-> m.ov.frames[i].ent, names |-> DOMAIN m.ov.frames[i].loc]) \o " got " \o ToJson(r.frames[i]))
            ELSE IF ~MatchSum(m.ov, r.sum, m.ov.l) THEN "error summary " \o ToJson(r.sum) ELSE "")
    [] OTHER -> ""
SnapDiff(s) ==
  IF MatchSnap(s) THEN ""
  ELSE IF ~SameNames(m.G, s.globals) THEN "state: other global variables: " \o ToJson(s.globals)
  ELSE IF Len(s.ents) # Cardinality({i \in 1..Len(m.E) : m.E[i].orig = 0}) \/ \E i \in 1..Len(s.ents) : \A j \in 1..Len(m.E) : m.E[j].orig # 0 \/ m.E[j].name # s.ents[i].name THEN "state: other sprites: " \o ToJson(s.ents)
  ELSE LET P == {i \in 1..Len(s.ents) : ~MatchSeq(m.E[EntIdx(s.ents[i].name)].props, s.ents[i].props)} IN
    IF P # {} THEN (LET i == CHOOSE i \in P : TRUE IN "state: properties of " \o s.ents[i].name \o ": expected " \o ToJson(m.E[EntIdx(s.ents[i].name)].props) \o " got " \o ToJson(s.ents[i].props))
    ELSE LET z == SnapParts(s)  es == EncAll(m.h, z[1])  S == {i \in 1..Len(z[2]) : ~MatchV(es[i], z[2][i])} IN
      IF S = {} \/ Len(z[2]) # Len(es) THEN "state: costumes, sounds or variables differ: " \o ToJson(s.ents)
      ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN "state: " \o z[3][i] \o ": expected " \o ToJson(es[i]) \o " got " \o ToJson(z[2][i])
Diff(r) ==
  IF m.out # r.kind /\ r.kind \in {"Panic", "Cut"} THEN (IF r.kind = "Cut" THEN "the VM ran on without an end" ELSE "panic: " \o r.msg \o " (expected turn end " \o m.out \o ")")
  ELSE LET e == EvDiff(m.ev, r.ev) IN
    IF e # "" THEN e
    ELSE IF m.out # r.kind THEN "turn end: expected " \o m.out \o (IF m.out = "Err" THEN " " \o m.ov.cause \o " (block " \o IntStr(m.ov.n) \o ")" ELSE "") \o " got " \o r.kind \o (IF r.kind = "Err" THEN " " \o r.cause ELSE "")
    ELSE LET o == OutDiff(r) IN IF o # "" THEN o ELSE IF Len(r.snap) = 0 THEN "" ELSE SnapDiff(r.snap[1])

(***************************************************************************)
(* The checker                                                             *)
(***************************************************************************)
Tr == Traces[cid]
\* turns which each start by stopping everything and use variables of their own: an undecided turn is left out
Iso == "iso" \in DOMAIN Cases[cid].env
\* nothing was recorded because the program never came to an end: right only if the specification finds it endless as well
Lost == Tr.compile \in {"hang", "crash"}
Say(st, why) == PrintT("RES\t" \o st \o "\t" \o IntStr(cid) \o "\t" \o IntStr(tn) \o "\t" \o why)
Init == /\ cid \in 1..Len(Cases) /\ m = <<>> /\ tn = 0 /\ ph = "init" /\ sv = <<>>
Finish(st, why) == Say(st, why) /\ ph' = "done" /\ UNCHANGED <<cid, tn>> /\ m' = <<>> /\ sv' = <<>>
Start ==
  /\ ph = "init"
  /\ IF Tr.compile # "ok" /\ ~Lost THEN Finish("bad", "the project does not load: " \o Tr.compile \o " " \o (IF "msg" \in DOMAIN Tr THEN Tr.msg ELSE ""))
     ELSE m' = InitMachine(cid) /\ ph' = "snap" /\ UNCHANGED <<cid, tn, sv>>
Snap0 ==
  /\ ph = "snap"
  /\ LET d == IF Len(Tr.snap0) = 0 THEN "" ELSE SnapDiff(Tr.snap0[1]) IN
     IF d # "" THEN Finish("bad", d) ELSE ph' = "turn" /\ UNCHANGED <<cid, tn, m, sv>>
Turn ==
  /\ ph = "turn"
  /\ IF tn = Len(Cases[cid].env.turns) THEN (IF Lost THEN Finish("bad", Tr.msg) ELSE Finish("ok", ""))
     ELSE m' = BeginTurn(m, Cases[cid].env.turns[tn + 1]) /\ tn' = tn + 1 /\ ph' = "run" /\ sv' = (IF Iso THEN m ELSE <<>>) /\ UNCHANGED cid
RunTurn ==
  /\ ph = "run"
  /\ IF m.out = "" THEN m' = Run(m) /\ UNCHANGED <<cid, tn, ph, sv>>
     ELSE IF m.taint # "" /\ Iso /\ tn <= Len(Tr.turns) /\ Tr.turns[tn].kind # "Panic" THEN PrintT("SKIP\t" \o IntStr(cid) \o "\t" \o IntStr(tn) \o "\t" \o m.taint) /\ m' = sv /\ ph' = "turn" /\ UNCHANGED <<cid, tn, sv>>
     ELSE IF m.taint # "" THEN LET P == {i \in tn..Len(Tr.turns) : Tr.turns[i].kind = "Panic"} IN  \* what the values are is undecided, but a panic is never right
          IF P # {} THEN Finish("bad", "panic: " \o Tr.turns[CHOOSE i \in P : TRUE].msg) ELSE Finish("taint", m.taint)
     ELSE IF Lost THEN ph' = "turn" /\ UNCHANGED <<cid, tn, m, sv>>
     ELSE IF tn > Len(Tr.turns) THEN Finish("bad", "the record ends early")
     ELSE LET d == Diff(Tr.turns[tn]) IN
       IF d # "" THEN Finish("bad", d) ELSE ph' = "turn" /\ UNCHANGED <<cid, tn, m, sv>>
Next == Start \/ Snap0 \/ Turn \/ RunTurn
View == <<cid, tn, ph, IF ph \in {"run", "turn"} THEN <<m.cnt, m.out>> ELSE <<0, "">>>>
=============================================================================
