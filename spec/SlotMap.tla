------------------------------- MODULE SlotMap -------------------------------
(***************************************************************************)
(* The generational container, as its users see it: every insertion issues *)
(* a handle that no other insertion ever issues; the state is what each    *)
(* handle issued so far refers to (Gone once its item was removed).  How   *)
(* storage is reused is no part of this; that reuse cannot be observed is. *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt

Gone == -1
SlotInit == <<>>
SlotLive(s) == {h \in 1..Len(s) : s[h] # Gone}
SlotItems(s) == LET L == SelectSeq([h \in 1..Len(s) |-> <<h, s[h]>>], LAMBDA p: p[2] # Gone) IN L
SlotAt(s, h) == IF s[h] = Gone THEN <<>> ELSE <<<<h, s[h]>>>>
Same(s, r) == [s |-> s, r |-> r]
SlotApply(s, op) ==
  CASE op.o = "ins" -> [s |-> Append(s, op.v), r |-> <<>>]
    [] op.o = "get" -> Same(s, SlotAt(s, op.h))
    [] op.o = "rem" -> [s |-> [s EXCEPT ![op.h] = Gone], r |-> SlotAt(s, op.h)]
    [] op.o = "set" -> IF s[op.h] = Gone THEN Same(s, <<>>) ELSE [s |-> [s EXCEPT ![op.h] = op.v], r |-> SlotAt(s, op.h)]
    [] op.o = "clear" -> [s |-> [h \in 1..Len(s) |-> Gone], r |-> <<>>]
       \* keeps the items of the handles given, adding v to each; the predicate sees every live item once
    [] op.o = "keep" -> [s |-> [h \in 1..Len(s) |-> IF s[h] # Gone /\ \E i \in 1..Len(op.hs) : op.hs[i] = h THEN s[h] + op.v ELSE Gone], r |-> SlotItems(s)]
    [] op.o = "inc" -> [s |-> [h \in 1..Len(s) |-> IF s[h] = Gone THEN Gone ELSE s[h] + 1], r |-> SlotItems(s)]
       \* continue with a copy, after emptying and refilling the original
    [] op.o = "copy" -> Same(s, <<>>)
       \* n insertions, each removed at once
    [] op.o = "churn" -> [s |-> s \o [i \in 1..op.v |-> Gone], r |-> <<<<op.v, op.v>>>>]
       \* n insertions that stay
    [] op.o = "fill" -> [s |-> s \o [i \in 1..op.v |-> i], r |-> <<>>]
    [] OTHER -> Same(s, <<<<-9, -9>>>>)
SlotObs(s) == LET L == SlotItems(s) IN [n |-> Len(L), e |-> Len(L) = 0, it |-> L, im |-> L, g |-> L, gm |-> L, io |-> L]

\* what the enumeration tries at a state
SlotOps(s) ==
  {[o |-> "ins", h |-> 0, v |-> 10 * (Len(s) + 1), hs |-> <<>>], [o |-> "clear", h |-> 0, v |-> 0, hs |-> <<>>], [o |-> "copy", h |-> 0, v |-> 0, hs |-> <<>>]}
  \cup {[o |-> "rem", h |-> h, v |-> 0, hs |-> <<>>] : h \in 1..Len(s)}
  \cup (IF Len(s) = 0 THEN {} ELSE {[o |-> "keep", h |-> 0, v |-> 1, hs |-> SelectSeq([h \in 1..Len(s) |-> h], LAMBDA h: h % 2 = p)] : p \in {0, 1}})
\* theorems of the specification: a handle once gone stays gone, and operations on one handle leave the others alone
SlotStep(s, op, t) ==
  /\ Len(t) >= Len(s)
  /\ \A h \in 1..Len(s) : (s[h] = Gone => t[h] = Gone) /\ (op.o \in {"ins", "get", "copy", "churn", "fill"} => t[h] = s[h]) /\ (op.o \in {"rem", "set"} /\ op.h # h => t[h] = s[h])
  /\ op.o = "rem" => t[op.h] = Gone
=============================================================================
