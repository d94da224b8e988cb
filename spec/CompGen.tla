------------------------------- MODULE CompGen -------------------------------
(***************************************************************************)
(* Every history of operations on a component up to a length, with what    *)
(* its last operation gives and what is observed then.  The theorems of    *)
(* the component specifications are checked on every step of them.         *)
(* KIND names the component, DEPTH the length, ARG a variant.              *)
(***************************************************************************)
EXTENDS Base
LOCAL INSTANCE SlotMap
LOCAL INSTANCE VecMap
LOCAL INSTANCE OneShot
LOCAL INSTANCE StdNet
LOCAL INSTANCE Client
VARIABLES s, h, ok

Kind == IOEnv.KIND
Depth == atoi(IOEnv.DEPTH)
Arg == atoi(IOEnv.ARG)
ASSUME IF Kind = "client" THEN TLCSet(1, ndJsonDeserialize(IOEnv.FILE_CASES)) ELSE TRUE
Case(k) == TLCGet(1)[k]
Keys == IF Arg >= 2 THEN {"b", "B", "", "ab"} ELSE {1, 2, 3, 4}
Start ==
  CASE Kind = "slot" -> SlotInit
    [] Kind = "vec" -> VecInit(Arg % 2 = 1, Arg >= 2)
    [] Kind = "one" -> OneInit(Arg = 1)
    [] Kind = "bar" -> BarInit
    [] Kind = "idle" -> IdleInit(Arg)
    [] Kind = "clock" -> ClockInit(Arg)
    [] Kind = "net" -> NetInit(Arg)
    [] Kind = "client" -> ClientInit
Ops ==
  CASE Kind = "slot" -> SlotOps(s)
    [] Kind = "vec" -> VecOps(s, Keys)
    [] Kind = "one" -> OneOps(s, Len(h))
    [] Kind = "bar" -> BarOps(s)
    [] Kind = "idle" -> IdleOps
    [] Kind = "clock" -> ClockOps
    [] Kind = "net" -> NetOps(s)
    [] Kind = "client" -> ClientOps(Case(1), s, Len(h))
Apply(op) ==
  CASE Kind = "slot" -> SlotApply(s, op)
    [] Kind = "vec" -> VecApply(s, op)
    [] Kind = "one" -> OneApply(s, op)
    [] Kind = "bar" -> BarApply(s, op)
    [] Kind = "idle" -> IdleApply(s, op)
    [] Kind = "clock" -> ClockApply(s, op)
    [] Kind = "net" -> NetApply(s, op)
    [] Kind = "client" -> ClientApply(Case(1), s, op)
Obs(t) ==
  CASE Kind = "slot" -> SlotObs(t)
    [] Kind = "vec" -> VecObs(t)
    [] Kind = "bar" -> BarObs(t)
    [] Kind = "idle" -> t.f
    [] OTHER -> 0
StepOk(op, t) ==
  CASE Kind = "slot" -> SlotStep(s, op, t)
    [] Kind = "vec" -> VecStep(s, op, t) /\ VecInv(t)
    [] Kind = "one" -> OneStep(s, op, t)
    [] Kind = "bar" -> BarStep(s, op, t)
    [] Kind = "idle" -> IdleStep(s, op, t)
    [] Kind = "clock" -> ClockStep(s, op, t)
    [] Kind = "net" -> NetTheorem(s, op, t)
    [] Kind = "client" -> ClientStep(Case(1), s, op, t)
Init == s = Start /\ h = <<>> /\ ok = TRUE
Next ==
  /\ Len(h) < Depth
  /\ \E op \in Ops : LET a == Apply(op) IN
       /\ s' = a.s /\ h' = Append(h, op) /\ ok' = StepOk(op, a.s)
       /\ PrintT("HIST\t" \o ToJson([ops |-> h', r |-> a.r, x |-> Obs(a.s)]))
Theorems == ok
=============================================================================
