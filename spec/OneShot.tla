------------------------------- MODULE OneShot -------------------------------
(***************************************************************************)
(* One-shot results (and the shared keys made of them), barriers, the idle *)
(* action and the cached clock.                                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

OpHV(o, h, v) == [o |-> o, h |-> h, v |-> v]

(* one-shot result: pending, done(v), consumed; .h: the handles on it (shared keys), TRUE while held *)
OneInit(shared) == [st |-> "pending", v |-> 0, h |-> IF shared THEN <<TRUE>> ELSE <<>>]
OnePoll(s) == [s |-> IF s.st = "pending" THEN s ELSE [s EXCEPT !.st = "consumed"], r |-> IF s.st = "done" THEN <<"done", s.v>> ELSE <<s.st, 0>>]
OnePut(s, v) == IF s.st = "pending" THEN [s |-> [s EXCEPT !.st = "done", !.v = v], r |-> <<"ok", 0>>] ELSE [s |-> s, r |-> <<"refused", v>>]
OneApply(s, op) ==
  CASE op.o = "poll" -> OnePoll(s)
    [] op.o = "complete" -> IF s.h = <<>> THEN OnePut(s, op.v) ELSE LET p == OnePut(s, op.v) IN [p EXCEPT !.s.h[op.h] = FALSE]   \* a key is used up by completing
    [] op.o = "clone" -> [s |-> [s EXCEPT !.h = Append(@, TRUE)], r |-> <<"", 0>>]
    [] op.o = "drop" -> [s |-> [s EXCEPT !.h[op.h] = FALSE], r |-> <<"", 0>>]
    [] OTHER -> [s |-> s, r |-> <<"?", 0>>]
OneHeld(s) == {h \in 1..Len(s.h) : s.h[h]}
OneOps(s, n) ==
  IF s.h = <<>> THEN {OpHV("poll", 0, 0), OpHV("complete", 0, 10 + n)}
  ELSE UNION {{OpHV("poll", h, 0), OpHV("complete", h, 10 + n), OpHV("drop", h, 0)} \cup (IF Len(s.h) < 3 THEN {OpHV("clone", h, 0)} ELSE {}) : h \in OneHeld(s)}
OneStep(s, op, t) == (s.st = "consumed" => t.st = "consumed") /\ (s.st = "done" => t.st \in {"done", "consumed"} /\ t.v = s.v)

(* barriers: b[i] the group of handle i (0 once dropped); c[i] the group condition i waits for *)
BarInit == [b |-> <<>>, c |-> <<>>, n |-> 0]
BarApply(s, op) ==
  [r |-> <<"", 0>>, s |->
   CASE op.o = "new" -> [s EXCEPT !.n = @ + 1, !.b = Append(@, s.n + 1)]
     [] op.o = "clone" -> [s EXCEPT !.b = Append(@, s.b[op.h])]
     [] op.o = "drop" -> [s EXCEPT !.b[op.h] = 0]
     [] op.o = "cond" -> [s EXCEPT !.c = Append(@, s.b[op.h])]
     [] op.o = "cclone" -> [s EXCEPT !.c = Append(@, s.c[op.h])]
     [] OTHER -> s]
BarObs(s) == [i \in 1..Len(s.c) |-> \A j \in 1..Len(s.b) : s.b[j] # s.c[i]]
BarOps(s) ==
  (IF s.n < 2 THEN {OpHV("new", 0, 0)} ELSE {})
  \cup UNION {{OpHV("clone", h, 0), OpHV("drop", h, 0), OpHV("cond", h, 0)} : h \in {h \in 1..Len(s.b) : s.b[h] # 0}}
  \cup (IF Len(s.c) = 0 THEN {} ELSE {OpHV("cclone", 1, 0)})
BarStep(s, op, t) == \A i \in 1..Len(s.c) : BarObs(s)[i] => BarObs(t)[i]     \* an open barrier stays open

(* the idle action: .c steps without activity, fires at .t and starts over *)
IdleInit(t) == [c |-> 0, t |-> t, f |-> 0]
IdleFire(s) == [s EXCEPT !.c = 0, !.f = @ + 1]
IdleApply(s, op) ==
  [r |-> <<"", 0>>, s |->
   IF op.o = "trigger" THEN IdleFire(s)
   ELSE IF op.o \in {"Idle", "Yield", "Pause"} THEN (IF s.c + 1 >= s.t THEN IdleFire(s) ELSE [s EXCEPT !.c = @ + 1])
   ELSE [s EXCEPT !.c = 0]]
IdleOps == {OpHV(o, 0, 0) : o \in {"Idle", "Yield", "Pause", "Normal", "Term", "Err", "Watch", "trigger"}}
IdleStep(s, op, t) == t.c < t.t /\ t.f <= s.f + 1 /\ (op.o \in {"Normal", "Term", "Err", "Watch"} => t.f = s.f /\ t.c = 0)

(* the clock: .k the finest precision the cache serves (0: no cache), .u which reading (numbered by operation) the cache holds *)
ClockInit(k) == [k |-> k, u |-> 0, n |-> 0]
ClockApply(s0, op) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  IF op.o = "read" /\ s.k # 0 /\ op.v <= s.k THEN [s |-> s, r |-> <<"", s.u>>] ELSE [s |-> [s EXCEPT !.u = s.n], r |-> <<"", s.n>>]
ClockOps == {OpHV("update", 0, 0)} \cup {OpHV("read", 0, p) : p \in 1..3}
ClockStep(s, op, t) == t.u >= s.u /\ ClockApply(s, op).r[2] >= s.u
=============================================================================
