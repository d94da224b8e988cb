------------------------------ MODULE CompTrace ------------------------------
(***************************************************************************)
(* Conformance of the components: histories of operations recorded from    *)
(* the real types must give, operation by operation, the results and       *)
(* observations the component specifications give.                         *)
(***************************************************************************)
EXTENDS Base
LOCAL INSTANCE SlotMap
LOCAL INSTANCE VecMap
LOCAL INSTANCE OneShot
LOCAL INSTANCE Music
LOCAL INSTANCE Plain
LOCAL INSTANCE StdNet
LOCAL INSTANCE Deep
LOCAL INSTANCE Client
LOCAL INSTANCE Dump
VARIABLES cid, ph, tn, st

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.FILE_CASES)) /\ TLCSet(2, ndJsonDeserialize(IOEnv.FILE_TRACE))
Cs == TLCGet(1)
Ts == TLCGet(2)
C == Cs[cid]
R == Ts[cid]
Start(c) ==
  CASE c.kind = "slot" -> SlotInit
    [] c.kind = "vec" -> VecInit(c.sorted, c.text)
    [] c.kind = "one" -> OneInit(c.shared)
    [] c.kind = "bar" -> BarInit
    [] c.kind = "idle" -> IdleInit(c.thresh)
    [] c.kind = "clock" -> ClockInit(c.prec)
    [] c.kind = "net" -> NetInit(c.prec)
    [] c.kind = "deep" -> DeepInit
    [] c.kind = "client" -> ClientInit
    [] OTHER -> <<>>
Apply(c, s, op) ==
  CASE c.kind = "slot" -> SlotApply(s, op)
    [] c.kind = "vec" -> VecApply(s, op)
    [] c.kind = "one" -> OneApply(s, op)
    [] c.kind = "bar" -> BarApply(s, op)
    [] c.kind = "idle" -> IdleApply(s, op)
    [] c.kind = "clock" -> ClockApply(s, op)
    [] c.kind = "deep" -> DeepApply(s, op)
    [] c.kind = "client" -> ClientApply(c, s, op)
Obs(c, s) ==
  CASE c.kind = "slot" -> SlotObs(s)
    [] c.kind = "vec" -> VecObs(s)
    [] c.kind = "bar" -> BarObs(s)
    [] c.kind = "idle" -> s.f
    [] OTHER -> 0
\* one record: r the result, and, if asked for, x the observation
OpDiff(c, s, op, rec) ==
  LET a == Apply(c, s, op) IN
  IF rec.p # "" THEN "panic: " \o rec.p
  ELSE IF a.r # rec.r THEN ToJson(op) \o ": expected " \o ToJson(a.r) \o " got " \o ToJson(rec.r)
  ELSE IF Len(rec.x) > 0 /\ Obs(c, a.s) # rec.x[1] THEN "after " \o ToJson(op) \o ": expected " \o ToJson(Obs(c, a.s)) \o " got " \o ToJson(rec.x[1])
  ELSE ""
\* single evaluations
EvalOk(op, rec) ==
  CASE op.o = "midi" -> MidiOk(op.v, op.nat, rec.r)
    [] op.o = "name" -> NameOk(op.s, rec.r)
    [] op.o = "hsva" -> HsvaOk(op.h, op.s, op.v, op.a, rec.r)
    [] op.o = "rgb" -> RgbOk(op.c, rec.r)
    [] OTHER -> PlainOk(op, rec.r)
EvalDiff(op, rec) == IF rec.p # "" THEN ToJson(op) \o ": panic: " \o rec.p ELSE IF EvalOk(op, rec) THEN "" ELSE ToJson(op) \o ": unexpected " \o ToJson(rec.r) \o PlainWhy(op, rec.r)

Say(v, why) == PrintT("RES\t" \o v \o "\t" \o IntStr(cid) \o "\t" \o IntStr(tn) \o "\t" \o why)
Init == cid \in 1..Len(Cs) /\ ph = "init" /\ tn = 0 /\ st = <<>>
Begin == ph = "init" /\ ph' = "run" /\ st' = Start(C) /\ UNCHANGED <<cid, tn>>
Finish(v, why) == Say(v, why) /\ ph' = "done" /\ st' = <<>> /\ UNCHANGED <<cid, tn>>
Do ==
  /\ ph = "run"
  /\ IF R.p # "" THEN Finish("bad", "the process ended: " \o R.p)
     ELSE IF tn = Len(C.ops) THEN Finish("ok", "")
     ELSE IF tn = Len(R.out) THEN Finish("bad", "the record ends early")
     ELSE LET op == C.ops[tn + 1]  rec == R.out[tn + 1] IN
       /\ tn' = tn + 1 /\ UNCHANGED cid
       /\ IF C.kind = "eval" THEN LET d == EvalDiff(op, rec) IN
            IF d = "" THEN UNCHANGED <<ph, st>> ELSE PrintT("RES\tbad\t" \o IntStr(cid) \o "\t" \o IntStr(tn + 1) \o "\t" \o d) /\ ph' = "done" /\ st' = <<>>
          ELSE IF C.kind = "dump" THEN LET d == DumpDiff(op, rec.r) IN
            IF d = "" THEN UNCHANGED <<ph, st>> ELSE PrintT("RES\tbad\t" \o IntStr(cid) \o "\t" \o IntStr(tn + 1) \o "\t" \o d) /\ ph' = "done" /\ st' = <<>>
          ELSE IF C.kind = "net" THEN LET z == IF rec.p = "" THEN NetStep(st, op, rec.r) ELSE [ok |-> FALSE, why |-> "panic: " \o rec.p] IN
            IF z.ok THEN st' = z.s /\ UNCHANGED ph
            ELSE PrintT("RES\tbad\t" \o IntStr(cid) \o "\t" \o IntStr(tn + 1) \o "\t" \o (IF op.o = "prog" THEN "program" ELSE ToJson(op)) \o ": " \o z.why \o "; got " \o ToJson(rec.r)) /\ ph' = "done" /\ st' = <<>>
          ELSE LET d == OpDiff(C, st, op, rec) IN
            IF d = "" THEN st' = Apply(C, st, op).s /\ UNCHANGED ph
            ELSE PrintT("RES\tbad\t" \o IntStr(cid) \o "\t" \o IntStr(tn + 1) \o "\t" \o d) /\ ph' = "done" /\ st' = <<>>
Next == Begin \/ Do
View == <<cid, ph, tn>>
=============================================================================
