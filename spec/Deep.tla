-------------------------------- MODULE Deep --------------------------------
(***************************************************************************)
(* Lists nested to any depth.  Nest(n) is the number one in n + 1 lists.    *)
(* What the blocks report of it is defined by recursion over the value; the *)
(* closed forms, which hold for any depth, are checked against that for     *)
(* small ones.                                                              *)
(***************************************************************************)
EXTENDS Base
RECURSIVE Nest(_)
Nest(n) == IF n = 0 THEN <<"1">> ELSE <<Nest(n - 1)>>
RECURSIVE DRank(_, _)  \* d: how many lists are still to come
DRank(x, d) == IF d = 0 THEN 0 ELSE 1 + DRank(x[1], d - 1)
RECURSIVE DFlat(_, _)
DFlat(x, d) == IF d = 0 THEN <<x>> ELSE DFlat(x[1], d - 1)
RECURSIVE DText(_, _)
DText(x, d) == IF d = 0 THEN x ELSE "[" \o DText(x[1], d - 1) \o "]"
RECURSIVE DSame(_, _, _)
DSame(x, y, d) == IF d = 0 THEN x = y ELSE Len(x) = Len(y) /\ DSame(x[1], y[1], d - 1)
DeepInit == <<>>
DNum(x) == [t |-> "n", n |-> x, k |-> 0]
\* what the program prints for the operation on lists nested n times
DeepValue(o, n) ==
  CASE o = "listflatten" -> DNum(1)                \* its length
    [] o \in {"listrank", "listdims"} -> DNum(n + 1)
    [] o = "reshape" -> DNum(3)
    [] o = "strcat" -> DNum(2 * (n + 1) + 1)
    [] o = "listjson" -> DNum(2 * (n + 1) + 3)     \* the number is written 1.0
    [] o \in {"neg", "sub"} -> DNum(1)
    [] o = "listget" -> DNum(1)
    [] o = "eq" -> [t |-> "b", b |-> TRUE]
    [] o = "listfind" -> DNum(2)
DeepApply(s, op) == [s |-> s, r |-> <<DeepValue(op.o, op.n)>>]
ASSUME \A n \in 0..6:
  /\ DeepValue("listrank", n) = DNum(DRank(Nest(n), n + 1))
  /\ DeepValue("listflatten", n) = DNum(Len(DFlat(Nest(n), n + 1)))
  /\ DeepValue("strcat", n) = DNum(Len(DText(Nest(n), n + 1)))
  /\ DeepValue("eq", n).b = DSame(Nest(n), Nest(n), n + 1)
=============================================================================
