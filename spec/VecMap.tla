------------------------------- MODULE VecMap --------------------------------
(***************************************************************************)
(* The small map: the sequence of its entries in iteration order, which is *)
(* ascending key order (by code point, for texts) or first-insertion order.*)
(***************************************************************************)
LOCAL INSTANCE Base
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

VecInit(sorted, text) == [sorted |-> sorted, text |-> text, e |-> <<>>]
KeyLess(s, a, b) == IF s.text THEN CmpStr(a, b) = "lt" ELSE a < b
VecPos(s, k) == LET S == {i \in 1..Len(s.e) : s.e[i][1] = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
VecAt(s, k) == LET i == VecPos(s, k) IN IF i = 0 THEN <<>> ELSE <<s.e[i]>>
VecPut(s, k, v) ==
  LET i == VecPos(s, k) IN
  IF i # 0 THEN [s EXCEPT !.e[i] = <<k, v>>]
  ELSE IF ~s.sorted THEN [s EXCEPT !.e = Append(@, <<k, v>>)]
  ELSE LET n == Cardinality({j \in 1..Len(s.e) : KeyLess(s, s.e[j][1], k)}) IN [s EXCEPT !.e = SubSeq(@, 1, n) \o <<<<k, v>>>> \o SubSeq(@, n + 1, Len(@))]
RECURSIVE VecPutAll(_, _)
VecPutAll(s, es) == IF es = <<>> THEN s ELSE VecPutAll(VecPut(s, Head(es)[1], Head(es)[2]), Tail(es))
VecApply(s, op) ==
  CASE op.o = "ins" -> [s |-> VecPut(s, op.k, op.v), r |-> VecAt(s, op.k)]
    [] op.o = "get" -> [s |-> s, r |-> VecAt(s, op.k)]
    [] op.o = "set" -> [s |-> IF VecPos(s, op.k) = 0 THEN s ELSE VecPut(s, op.k, op.v), r |-> VecAt(s, op.k)]
    [] op.o = "inc" -> [s |-> [s EXCEPT !.e = [i \in 1..Len(@) |-> <<@[i][1], @[i][2] + 1>>]], r |-> s.e]
    [] op.o = "ser" -> [s |-> s, r |-> <<>>]       \* written out and read back
    [] op.o = "collect" -> [s |-> VecPutAll([s EXCEPT !.e = <<>>], op.es), r |-> <<>>]     \* built from pairs
    [] op.o = "rebuild" -> [s |-> s, r |-> s.e]    \* taken apart and built again
    [] OTHER -> [s |-> s, r |-> <<<<-9, -9>>>>]
VecObs(s) == [n |-> Len(s.e), z |-> Len(s.e) = 0, it |-> s.e, im |-> s.e, sl |-> s.e]

VecOps(s, keys) ==
  LET op(o, k, v) == [o |-> o, k |-> k, v |-> v, es |-> <<>>] IN
  {op("ins", k, 10 * Len(s.e) + 1) : k \in keys} \cup {op("set", k, 7) : k \in keys} \cup {op("inc", CHOOSE k \in keys : TRUE, 0), op("rebuild", CHOOSE k \in keys : TRUE, 0)}
VecInv(s) == \A i, j \in 1..Len(s.e) : i < j => s.e[i][1] # s.e[j][1] /\ (s.sorted => KeyLess(s, s.e[i][1], s.e[j][1]))
\* the last value stored is what is read; nothing else changes; in insertion order, entries never move
VecStep(s, op, t) ==
  /\ op.o = "ins" => VecAt(t, op.k) = <<<<op.k, op.v>>>> /\ \A i \in 1..Len(s.e) : s.e[i][1] # op.k => VecAt(t, s.e[i][1]) = <<s.e[i]>>
  /\ ~s.sorted /\ op.o # "collect" => \A i \in 1..Len(s.e) : t.e[i][1] = s.e[i][1]
=============================================================================
