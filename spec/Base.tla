------------------------------- MODULE Base -------------------------------
(***************************************************************************)
(* Numbers, text and their conversions.                                    *)
(*                                                                         *)
(* A number is exact ([t|->"n", n, k] stands for n/2^k, k minimal), or an  *)
(* interval ([t|->"a", m, e]: within e of m, in units of 1/10000), or      *)
(* unknown ([t|->"u", y|->"n"]).  [t|->"u", y|->"s"] is an unknown text.   *)
(* The specification never guesses: an operation whose result it cannot    *)
(* decide yields an unknown value, and a *decision* on such a value taints *)
(* the rest of the behaviour (nothing more is claimed about it).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, IOUtils

Chr == JsonDeserialize("chars.json")
Sharp == Chr.music[1]
Flat == Chr.music[2]
Natural == Chr.music[3]

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,1048576,2097152,4194304,8388608,16777216,33554432,67108864,134217728,268435456,536870912,1073741824>>
Pow2(i) == P2[i + 1]
P10 == <<1,10,100,1000,10000,100000,1000000,10000000,100000000,1000000000>>
Pow10(i) == P10[i + 1]
P5 == <<1,5,25,125,625,3125,15625,78125,390625,1953125,9765625,48828125,244140625>>
Pow5(i) == P5[i + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
BIG == 536870912       \* 2^29: magnitude of an exact numerator
ABIG == 500000000      \* magnitude of an interval
Range0(n) == [i \in 1..n |-> i]

\* a number known only to be below 10^g in magnitude
UnkG(g) == [t |-> "u", y |-> "n", g |-> g]
UnkN == UnkG(40)
Mag(v) == IF v.t = "u" THEN v.g ELSE 12
UnkS == [t |-> "u", y |-> "s"]
I(n) == [t |-> "n", n |-> n, k |-> 0]
B(x) == [t |-> "b", b |-> x]
T(s) == [t |-> "s", s |-> s]
Empty == [t |-> "s", s |-> ""]
Zero == I(0)

RECURSIVE Norm(_, _)
Norm(n, k) == IF k = 0 \/ n % 2 = 1 THEN IF n < BIG /\ n > -BIG /\ k <= 12 THEN [t |-> "n", n |-> n, k |-> k] ELSE UnkN
              ELSE IF n = 0 THEN I(0) ELSE Norm(n \div 2, k - 1)
Apx(m, e) == IF m < ABIG /\ m > -ABIG /\ e < 1000000 THEN [t |-> "a", m |-> m, e |-> e] ELSE UnkN

IsNum(v) == v.t \in {"n", "a"} \/ (v.t = "u" /\ v.y = "n")
IsExact(v) == v.t = "n"

\* bounds of a number in units of 1/10000 (only when small enough), as <<ok, lo, hi>>
Small(v) == v.t = "n" /\ Abs(v.n) \div Pow2(v.k) < 40000
Bounds(v) == IF v.t = "a" THEN <<TRUE, v.m - v.e, v.m + v.e>>
             ELSE IF v.t = "n" /\ Small(v)
                  THEN LET w == v.n \div Pow2(v.k)          \* floor
                           r == v.n % Pow2(v.k)
                           f == (r * 10000) \div Pow2(v.k)
                           x == (r * 10000) % Pow2(v.k)
                       IN <<TRUE, w * 10000 + f, w * 10000 + f + (IF x = 0 THEN 0 ELSE 1)>>
                  ELSE <<FALSE, 0, 0>>
ToApx(v) == LET b == Bounds(v) IN
            IF v.t = "a" THEN v ELSE IF b[1] THEN Apx(b[2], b[3] - b[2]) ELSE UnkN

\* sign of a number: -1, 0, 1 or 2 (cannot tell)
Sign(v) == IF v.t = "n" THEN (IF v.n > 0 THEN 1 ELSE IF v.n < 0 THEN -1 ELSE 0)
           ELSE IF v.t = "a" THEN (IF v.m - v.e > 0 THEN 1 ELSE IF v.m + v.e < 0 THEN -1 ELSE 2) ELSE 2

\* "lt" "eq" "gt" or "?" (cannot tell)
CmpInt(a, b) == IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq"
CmpNum(a, b) ==
  IF a.t = "n" /\ b.t = "n" THEN
    LET wa == a.n \div Pow2(a.k)  wb == b.n \div Pow2(b.k) IN
    IF wa # wb THEN CmpInt(wa, wb)
    ELSE CmpInt((a.n % Pow2(a.k)) * Pow2(12 - a.k), (b.n % Pow2(b.k)) * Pow2(12 - b.k))
  ELSE IF a.t = "u" \/ b.t = "u" THEN "?"
  ELSE LET x == Bounds(a)  y == Bounds(b) IN
       IF ~x[1] THEN (IF a.n < 0 THEN "lt" ELSE "gt")      \* |a| >= 40000 * 1 against an interval: decide only by magnitude
       ELSE IF ~y[1] THEN (IF b.n < 0 THEN "gt" ELSE "lt")
       ELSE IF x[3] < y[2] THEN "lt" ELSE IF x[2] > y[3] THEN "gt" ELSE "?"

Shl(n, d) == IF d = 0 THEN <<TRUE, n>> ELSE IF d <= 29 /\ Abs(n) < BIG \div Pow2(d) THEN <<TRUE, n * Pow2(d)>> ELSE <<FALSE, 0>>
AddNum(a, b) ==
  IF a.t = "n" /\ b.t = "n" THEN
    LET k == Max2(a.k, b.k)  x == Shl(a.n, k - a.k)  y == Shl(b.n, k - b.k) IN
    IF x[1] /\ y[1] THEN Norm(x[2] + y[2], k) ELSE UnkN
  ELSE LET x == ToApx(a)  y == ToApx(b) IN
       IF x.t = "a" /\ y.t = "a" THEN Apx(x.m + y.m, x.e + y.e) ELSE UnkN
NegNum(a) == IF a.t = "n" THEN [a EXCEPT !.n = -@] ELSE IF a.t = "a" THEN [a EXCEPT !.m = -@] ELSE a
SubNum(a, b) == AddNum(a, NegNum(b))
MulSafe(x, y) == x = 0 \/ Abs(y) <= BIG \div Abs(x)
MulNum(a, b) ==
  IF a.t = "n" /\ b.t = "n" THEN (IF MulSafe(a.n, b.n) THEN Norm(a.n * b.n, a.k + b.k) ELSE UnkN)
  ELSE LET x == ToApx(a)  y == ToApx(b) IN
       IF x.t = "a" /\ y.t = "a" /\ MulSafe(Abs(x.m) + x.e, Abs(y.m) + y.e)
       THEN Apx((x.m * y.m) \div 10000, ((Abs(x.m) * y.e + Abs(y.m) * x.e + x.e * y.e) \div 10000) + 2) ELSE UnkN
\* divisor known to be non-zero
DivNum(a, b) ==
  IF a.t # "n" \/ b.t # "n" THEN
    (IF b.t = "n" /\ b.k = 0 /\ a.t = "a" THEN LET q == a.m \div Abs(b.n) IN Apx((IF b.n < 0 THEN -q ELSE q), (a.e \div Abs(b.n)) + 2) ELSE UnkN)
  ELSE IF a.n = 0 THEN Zero
  ELSE LET sg == IF b.n < 0 THEN -1 ELSE 1
           d == Abs(b.n)
           G[s \in 0..12] == IF Shl(a.n, s)[1] /\ (Shl(a.n, s)[2] % d) = 0 THEN s ELSE IF s = 12 THEN -1 ELSE G[s + 1]
           s == G[0] IN
       IF s >= 0
       THEN LET q == sg * (Shl(a.n, s)[2] \div d)            \* value = q * 2^(b.k - a.k - s)
                e == b.k - a.k - s IN
            IF e >= 0 THEN (IF Shl(q, e)[1] THEN Norm(Shl(q, e)[2], 0) ELSE UnkN) ELSE Norm(q, -e)
       ELSE \* inexact: floor((a.n * 10000 * 2^b.k) / (d * 2^a.k))
            LET x == IF MulSafe(a.n, 10000) THEN Shl(a.n * 10000, b.k) ELSE <<FALSE, 0>>
                y == Shl(d, a.k) IN
            IF x[1] /\ y[1] THEN Apx(sg * (x[2] \div y[2]), 1) ELSE UnkN
IsInt(v) == v.t = "n" /\ v.k = 0
FloorNum(v) == IF v.t = "n" THEN I(v.n \div Pow2(v.k))
               ELSE IF v.t = "a" /\ (v.m - v.e) \div 10000 = (v.m + v.e) \div 10000 THEN I(v.m \div 10000) ELSE UnkN
CeilNum(v) == LET f == FloorNum(NegNum(v)) IN NegNum(f)
RoundNum(v) == \* half away from zero
  IF v.t = "n" THEN IF v.n >= 0 THEN FloorNum(AddNum(v, [t |-> "n", n |-> 1, k |-> 1])) ELSE NegNum(FloorNum(AddNum(NegNum(v), [t |-> "n", n |-> 1, k |-> 1])))
  ELSE FloorNum(AddNum(v, Apx(5000, 0)))
AbsNum(v) == IF v.t = "n" THEN [v EXCEPT !.n = Abs(@)] ELSE IF v.t = "a" THEN [v EXCEPT !.m = Abs(@)] ELSE v
\* a mod b with the sign of b (b # 0 known)
ModNum(a, b) ==
  IF a.t = "n" /\ b.t = "n" THEN
    LET k == Max2(a.k, b.k)  x == Shl(a.n, k - a.k)  y == Shl(b.n, k - b.k) IN
    IF ~x[1] \/ ~y[1] THEN UnkN
    ELSE IF y[2] > 0 THEN Norm(x[2] % y[2], k) ELSE Norm(-((-x[2]) % (-y[2])), k)
  ELSE IF b.t = "n" /\ b.k = 0 /\ a.t = "a" /\ b.n > 0 /\ b.n < 40000 THEN
    LET w == b.n * 10000  r == a.m % w IN
    IF r - a.e >= 0 /\ r + a.e < w THEN Apx(r, a.e) ELSE UnkN
  ELSE UnkN
RECURSIVE IsqrtB(_, _, _)
IsqrtB(n, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid <= 46340 /\ mid * mid <= n THEN IsqrtB(n, mid, hi) ELSE IsqrtB(n, lo, mid - 1)
Isqrt(n) == IsqrtB(n, 0, 46340)
\* v >= 0 known
SqrtNum(v) ==
  IF v.t # "n" THEN UnkN
  ELSE LET x == IF v.k % 2 = 0 THEN v ELSE [v EXCEPT !.n = @ * 2, !.k = @ + 1]      \* not canonical, only used here
           r == IF x.n < 1000000000 THEN Isqrt(x.n) ELSE 0 IN
       IF r * r = x.n THEN Norm(r, x.k \div 2)
       ELSE IF x.k = 0 /\ x.n < 100000 THEN Apx(Isqrt(x.n * 10000) * 100 + 50, 52)
       ELSE UnkN
RECURSIVE PowI(_, _, _)
PowI(a, n, acc) == IF n = 0 THEN acc ELSE IF acc.t # "n" THEN UnkN ELSE PowI(a, n - 1, MulNum(acc, a))
SinTab(d) == Chr.sin[d + 1]
SinDeg(d0) == LET d == d0 % 360 IN
  IF d <= 90 THEN SinTab(d) ELSE IF d <= 180 THEN SinTab(180 - d) ELSE IF d <= 270 THEN -SinTab(d - 180) ELSE -SinTab(360 - d)
CosDeg(d) == SinDeg(d + 90)
\* an interval for v clamped/compared helpers
MaxNum(a, b) == LET c == CmpNum(a, b) IN IF c = "?" THEN UnkN ELSE IF c = "lt" THEN b ELSE a
ClampNum(v, lo, hi) == LET c == CmpNum(v, lo)  d == CmpNum(v, hi) IN
  IF c = "?" \/ d = "?" THEN (IF v.t = "a" THEN Apx(Max2(lo.n * 10000, Min2(hi.n * 10000, v.m)), v.e) ELSE UnkN) ELSE IF c = "lt" THEN lo ELSE IF d = "gt" THEN hi ELSE v

(***************************************************************************)
(* Text.  Strings are sequences of UTF-16 units.                           *)
(***************************************************************************)
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
JoinStr(ss) == FoldLeft(LAMBDA a, b: a \o b, "", ss)
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digits == {DigitSeq[i] : i \in 1..10}
DigVal == [c \in Digits |-> CHOOSE d \in 0..9 : DigitSeq[d + 1] = c]
HexVal == [c \in Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
  IF c \in Digits THEN DigVal[c] ELSE IF c \in {"a","A"} THEN 10 ELSE IF c \in {"b","B"} THEN 11 ELSE IF c \in {"c","C"} THEN 12 ELSE IF c \in {"d","D"} THEN 13 ELSE IF c \in {"e","E"} THEN 14 ELSE 15]
CharList == Chr.chars
NC == Len(CharList)
CharSet == {CharList[i][1] : i \in 1..NC}
CodeOf == [c \in CharSet |-> CharList[CHOOSE i \in 1..NC : CharList[i][1] = c][2]]
CharOf == [u \in {CharList[i][2] : i \in 1..NC} |-> CharList[CHOOSE i \in 1..NC : CharList[i][2] = u][1]]
GcbSet == {Chr.gcb[i][1] : i \in 1..Len(Chr.gcb)}
GcbOf == [c \in GcbSet |-> Chr.gcb[CHOOSE i \in 1..Len(Chr.gcb) : Chr.gcb[i][1] = c][2]]
Gcb(c) == IF c \in GcbSet THEN GcbOf[c] ELSE "o"
Ideo == ToSet(Chr.ideo)
White == ToSet(Chr.white)
FoldKeys == {Chr.fold[i][1] : i \in 1..Len(Chr.fold)}
FoldOf == [c \in FoldKeys |-> Chr.fold[CHOOSE i \in 1..Len(Chr.fold) : Chr.fold[i][1] = c][2]]
EscKeys == {Chr.esc[i][1] : i \in 1..Len(Chr.esc)}
EscOf == [c \in EscKeys |-> Chr.esc[CHOOSE i \in 1..Len(Chr.esc) : Chr.esc[i][1] = c][2]]
Alpha == ToSet(Chr.alpha)
\* Text is a sequence of UTF-16 units here: a character outside the basic plane takes two.
Plain(s) == \A i \in 1..Len(s) : Ch(s, i) \in CharSet
Scalars(s) == \* sequence of characters
  IF Len(s) = 0 THEN <<>> ELSE IF Plain(s) THEN Chars(s)
  ELSE FoldLeft(LAMBDA st, i: IF i < st[1] THEN st
                              ELSE IF Ch(s, i) \notin CharSet /\ i < Len(s) /\ SubSeq(s, i, i + 1) \in CharSet THEN <<i + 2, Append(st[2], SubSeq(s, i, i + 1))>>
                              ELSE <<i + 1, Append(st[2], Ch(s, i))>>, <<1, <<>>>>, Range0(Len(s)))[2]
\* is there no grapheme cluster boundary before character i (UAX 29, on the classes of the alphabet)
RECURSIVE RisBefore(_, _)
RisBefore(k, i) == IF i > 1 /\ k[i - 1] = "RI" THEN 1 + RisBefore(k, i - 1) ELSE 0
RECURSIVE PicBefore(_, _)
PicBefore(k, i) == i > 1 /\ (k[i - 1] = "EP" \/ (k[i - 1] = "EX" /\ PicBefore(k, i - 1)))
Joined(k, i) ==
  \/ k[i - 1] = "CR" /\ k[i] = "LF"
  \/ k[i - 1] \notin {"CR", "LF", "CN"} /\ k[i] \in {"EX", "ZW", "SM"}
  \/ k[i - 1] = "HL" /\ k[i] \in {"HL", "HV"}
  \/ k[i - 1] = "HV" /\ k[i] = "HV"
  \/ k[i - 1] = "ZW" /\ k[i] = "EP" /\ PicBefore(k, i - 1)
  \/ k[i - 1] = "RI" /\ k[i] = "RI" /\ RisBefore(k, i) % 2 = 1
Clusters(c) ==
  LET k == [i \in 1..Len(c) |-> Gcb(c[i])] IN
  FoldLeft(LAMBDA acc, i: IF i > 1 /\ Joined(k, i) THEN [acc EXCEPT ![Len(acc)] = @ \o c[i]] ELSE Append(acc, c[i]), <<>>, Range0(Len(c)))
Graphemes(s) == LET c == Scalars(s) IN IF \E i \in 2..Len(c) : c[i] \in GcbSet THEN Clusters(c) ELSE c
\* sequence of <<char, code>>
CodePoints(s) == LET c == Scalars(s) IN [i \in 1..Len(c) |-> <<c[i], IF c[i] \in CharSet THEN CodeOf[c[i]] ELSE -1>>]
Folded(s) == FoldLeft(LAMBDA acc, c: IF c[1] \in FoldKeys THEN acc \o FoldOf[c[1]] ELSE Append(acc, c[2]), <<>>, CodePoints(s))
RECURSIVE CmpSeq(_, _, _)
CmpSeq(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN "eq" ELSE "lt")
  ELSE IF i > Len(b) THEN "gt"
  ELSE IF a[i] < b[i] THEN "lt" ELSE IF a[i] > b[i] THEN "gt" ELSE CmpSeq(a, b, i + 1)
CmpFold(a, b) == IF a = b THEN "eq" ELSE CmpSeq(Folded(a), Folded(b), 1)
CmpStr(a, b) == IF a = b THEN "eq" ELSE CmpSeq([i \in 1..Len(CodePoints(a)) |-> CodePoints(a)[i][2]], [i \in 1..Len(CodePoints(b)) |-> CodePoints(b)[i][2]], 1)
LowerAscii(c) == IF c \in FoldKeys /\ Len(FoldOf[c]) = 1 /\ FoldOf[c][1] \in DOMAIN CharOf THEN CharOf[FoldOf[c][1]] ELSE c
Quote(s) == "\"" \o FoldLeft(LAMBDA acc, c: acc \o (IF c[1] \in EscKeys THEN EscOf[c[1]] ELSE c[1]), "", CodePoints(s)) \o "\""
StartsWith(s, p) == Len(p) <= Len(s) /\ (Len(p) = 0 \/ SubSeq(s, 1, Len(p)) = p)
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s, 1) \in White THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in White THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
\* split on a non-empty separator
SplitOn(s, p) ==
  LET lp == Len(p)
      r == FoldLeft(LAMBDA st, i: IF i < st[1] THEN st
                       ELSE IF i + lp - 1 <= Len(s) /\ SubSeq(s, i, i + lp - 1) = p THEN <<i + lp, Append(st[2], st[3]), "">>
                       ELSE <<i + 1, st[2], st[3] \o Ch(s, i)>>, <<1, <<>>, "">>, Range0(Len(s)))
  IN Append(r[2], r[3])
\* str::split: the empty pattern matches around every character
SplitBy(s, p) == IF Len(p) = 0 THEN <<"">> \o [i \in 1..Len(CodePoints(s)) |-> CodePoints(s)[i][1]] \o <<"">> ELSE SplitOn(s, p)
\* str::lines
Lines(s) == LET x == SplitOn(s, "\n")
                y == IF x[Len(x)] = "" THEN SubSeq(x, 1, Len(x) - 1) ELSE x
            IN [i \in 1..Len(y) |-> IF (i < Len(x)) /\ Len(y[i]) > 0 /\ Ch(y[i], Len(y[i])) = "\r" THEN SubSeq(y[i], 1, Len(y[i]) - 1) ELSE y[i]]
\* UAX 29 words, on the classes of the alphabet
WCls(g) == IF g \in Digits THEN "N" ELSE IF g \in Alpha THEN "A" ELSE IF g = "_" THEN "X"
           ELSE IF g = ":" THEN "ml" ELSE IF g \in {",", ";"} THEN "mn" ELSE IF g \in {".", "'"} THEN "mb"
           ELSE IF g \in {"\n", "\r"} \/ (Gcb(g) = "CN" /\ g \in White \ {"\t"}) THEN "nl"
           ELSE IF Gcb(g) \in {"EX", "ZW", "SM"} \/ (Gcb(g) = "CN" /\ CodeOf[g] = 65279) THEN "fo"
           ELSE IF g \in Ideo THEN "id" ELSE IF Gcb(g) = "EP" THEN "ep" ELSE "o"
Words(s) ==
  LET q == Scalars(s)
      \* a character and the marks which follow it count as one
      u == FoldLeft(LAMBDA acc, i: IF i > 1 /\ WCls(q[i]) = "fo" /\ WCls(q[i - 1]) # "nl" THEN [acc EXCEPT ![Len(acc)] = Append(@, q[i])] ELSE Append(acc, <<q[i]>>), <<>>, Range0(Len(q)))
      g == [i \in 1..Len(u) |-> JoinStr(u[i])]
      n == Len(g)
      c == [i \in 1..n |-> WCls(u[i][1])]
      \* is there no boundary between i and i+1
      Glue(i) == \/ c[i] \in {"A","N","X"} /\ c[i+1] \in {"A","N","X"}
                 \/ c[i] = "A" /\ c[i+1] \in {"ml","mb"} /\ i + 2 <= n /\ c[i+2] = "A"
                 \/ c[i] \in {"ml","mb"} /\ c[i+1] = "A" /\ i > 1 /\ c[i-1] = "A"
                 \/ c[i] = "N" /\ c[i+1] \in {"mn","mb"} /\ i + 2 <= n /\ c[i+2] = "N"
                 \/ c[i] \in {"mn","mb"} /\ c[i+1] = "N" /\ i > 1 /\ c[i-1] = "N"
                 \/ Gcb(u[i][Len(u[i])]) = "ZW" /\ c[i+1] = "ep"
      r == FoldLeft(LAMBDA st, i: IF i < n /\ Glue(i) THEN <<Append(st[1], i), st[2]>> ELSE <<<<>>, Append(st[2], Append(st[1], i))>>, <<<<>>, <<>>>>, Range0(n))[2]
      IsW(seg) == \E j \in 1..Len(seg) : \E x \in 1..Len(u[seg[j]]) : WCls(u[seg[j]][x]) \in {"A", "N", "id"} \/ Gcb(u[seg[j]][x]) = "SM" IN
  LET keep == SelectSeq(r, IsW) IN
  [i \in 1..Len(keep) |-> JoinStr([j \in 1..Len(keep[i]) |-> g[keep[i][j]]])]

(***************************************************************************)
(* Number <-> text                                                         *)
(***************************************************************************)
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN DigitSeq[n + 1] ELSE NatStr(n \div 10) \o DigitSeq[(n % 10) + 1]
IntStr(n) == IF n < 0 THEN "-" \o NatStr(-n) ELSE NatStr(n)
RECURSIVE FracDigits(_, _)
FracDigits(r, d) == IF r = 0 THEN "" ELSE DigitSeq[((r * 10) \div d) + 1] \o FracDigits((r * 10) % d, d)
\* "" when the specification cannot tell
NumStr(v) ==
  IF v.t # "n" THEN ""
  ELSE LET a == Abs(v.n)  d == Pow2(v.k)  w == NatStr(a \div d)  f == FracDigits(a % d, d) IN
       IF v.k = 0 THEN IntStr(v.n)
       ELSE IF Len(w) + Len(f) > 15 THEN "" ELSE (IF v.n < 0 THEN "-" ELSE "") \o w \o "." \o f
NumText(v) == LET s == NumStr(v) IN IF s = "" THEN UnkS ELSE T(s)
\* f64 Debug
NumDbg(v) == LET s == NumStr(v) IN IF s = "" THEN "?" ELSE IF v.k = 0 THEN s \o ".0" ELSE s

RadixParse(s, base) == \* digits only; "none", or a number
  IF Len(s) = 0 THEN [t |-> "none"]
  ELSE IF \E i \in 1..Len(s) : Ch(s, i) \notin DOMAIN HexVal \/ (Ch(s, i) \in DOMAIN HexVal /\ HexVal[Ch(s, i)] >= base) THEN [t |-> "none"]
  ELSE LET r == FoldLeft(LAMBDA a, c: IF a < 0 \/ a >= (BIG \div base) THEN -1 ELSE a * base + HexVal[c], 0, Chars(s)) IN
       IF r >= 0 THEN I(r) ELSE IF Len(s) > 15 THEN [t |-> "taint"] ELSE UnkN

DecParse(s) ==
  LET step(st, c) ==
        IF st.q = "bad" THEN st
        ELSE IF c \in Digits THEN
          LET d == DigVal[c] IN
          IF st.q \in {"0", "sg", "int"} THEN [st EXCEPT !.q = "int", !.nd = @ + 1, !.big = @ \/ st.m >= 20000000, !.m = IF st.m >= 20000000 THEN @ ELSE @ * 10 + d, !.mag = IF st.m >= 20000000 THEN @ + 1 ELSE @]
          ELSE IF st.q \in {"dot", "frac", "ldot"} THEN
             IF st.m >= 20000000 THEN [st EXCEPT !.q = "frac", !.nd = @ + 1, !.big = @ \/ d # 0]
             ELSE [st EXCEPT !.q = "frac", !.nd = @ + 1, !.m = @ * 10 + d, !.f = @ + 1]
          ELSE [st EXCEPT !.q = "ed", !.e = IF @ > 10000 THEN @ ELSE @ * 10 + d]
        ELSE IF c \in {"+", "-"} THEN
          IF st.q = "0" THEN [st EXCEPT !.q = "sg", !.neg = (c = "-")]
          ELSE IF st.q = "e" THEN [st EXCEPT !.q = "es", !.en = (c = "-")] ELSE [st EXCEPT !.q = "bad"]
        ELSE IF c = "." THEN
          IF st.q = "int" THEN [st EXCEPT !.q = "dot"] ELSE IF st.q \in {"0", "sg"} THEN [st EXCEPT !.q = "ldot"] ELSE [st EXCEPT !.q = "bad"]
        ELSE IF c \in {"e", "E"} THEN
          IF st.q \in {"int", "dot", "frac"} THEN [st EXCEPT !.q = "e"] ELSE [st EXCEPT !.q = "bad"]
        ELSE [st EXCEPT !.q = "bad"]
      r == FoldLeft(step, [q |-> "0", m |-> 0, f |-> 0, nd |-> 0, neg |-> FALSE, e |-> 0, en |-> FALSE, big |-> FALSE, mag |-> 0], Chars(s)) IN
  IF r.q \notin {"int", "dot", "frac", "ed"} THEN [t |-> "none"]
  ELSE LET E == (IF r.en THEN -r.e ELSE r.e) - r.f + r.mag
           m == IF r.neg THEN -r.m ELSE r.m IN
       IF r.m = 0 /\ ~r.big THEN Zero
       ELSE IF E > 290 THEN (IF E > 308 THEN [t |-> "none"] ELSE [t |-> "taint"])
       ELSE IF r.big THEN UnkG(Max2(12, E + 10))
       ELSE IF E >= 0 THEN (IF E <= 8 /\ MulSafe(m, Pow10(E)) THEN Norm(m * Pow10(E), 0) ELSE UnkG(E + 10))
       ELSE LET j == -E IN
            IF j <= 9 /\ j <= 12 /\ m % Pow5(j) = 0 THEN Norm(m \div Pow5(j), j)
            ELSE IF j <= 4 THEN (IF MulSafe(m, Pow10(4 - j)) THEN Apx(m * Pow10(4 - j), 1) ELSE UnkN)
            ELSE IF j <= 9 THEN Apx(m \div Pow10(j - 4), 1) ELSE IF j < 300 THEN Apx(0, 1) ELSE UnkN
\* SimpleValue::parse_number: a number record, [t|->"none"] or [t|->"taint"]
ParseNum(s0) ==
  LET s == Trim(s0) IN
  IF Len(s) = 0 THEN [t |-> "none"]
  ELSE IF Len(s) >= 2 /\ Ch(s, 1) = "0" /\ Ch(s, 2) \in {"x", "X"} THEN RadixParse(SubSeq(s, 3, Len(s)), 16)
  ELSE IF Len(s) >= 2 /\ Ch(s, 1) = "0" /\ Ch(s, 2) \in {"o", "O"} THEN RadixParse(SubSeq(s, 3, Len(s)), 8)
  ELSE IF Len(s) >= 2 /\ Ch(s, 1) = "0" /\ Ch(s, 2) \in {"b", "B"} THEN RadixParse(SubSeq(s, 3, Len(s)), 2)
  ELSE DecParse(s)
=============================================================================
