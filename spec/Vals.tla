------------------------------- MODULE Vals -------------------------------
(***************************************************************************)
(* Values and the operators over them.                                     *)
(*                                                                         *)
(* The heap h = [L, ri, rs]: L is the sequence of mutable lists, rs the    *)
(* scripted randomness (cyclic, each entry k means the fraction k/16) and  *)
(* ri the number of draws so far.  Every operator returns <<st, h, x>>:    *)
(* st = 0: value x, st = 1: error with text x ("~p" = some error whose     *)
(* text starts with p), st = 2: cannot be decided (x says why).            *)
(***************************************************************************)
EXTENDS Base

Ok(h, v) == <<0, h, v>>
Er(h, m) == <<1, h, m>>
Ta(h, w) == <<2, h, w>>
LRef(i) == [t |-> "l", l |-> i]
IsL(v) == v.t = "l"
Alloc(h, s) == <<0, [h EXCEPT !.L = Append(@, s)], LRef(Len(h.L) + 1)>>
Ts(seq) == [i \in 1..Len(seq) |-> T(seq[i])]

TypeName(v) == IF v.t = "s" THEN "Text" ELSE IF v.t \in {"n", "a"} THEN "Number" ELSE IF v.t = "b" THEN "Bool" ELSE IF v.t = "l" THEN "List"
  ELSE IF v.t = "i" THEN "Image" ELSE IF v.t = "au" THEN "Audio" ELSE IF v.t = "c" THEN "Closure" ELSE IF v.t = "e" THEN "Entity"
  ELSE IF v.t = "f" THEN (IF v.w THEN "Native(OutputFile)" ELSE "Native(InputFile)")
  ELSE IF v.t = "u" /\ v.y = "s" THEN "Text" ELSE "Number"
ConvErr(v, exp) == "ConversionError { got: " \o TypeName(v) \o ", expected: " \o exp \o " }"
VarConvErr(v, exp) == "VariadicConversionError { got: " \o TypeName(v) \o ", expected: " \o exp \o " }"
NanErr == "NumberError { error: Nan }"
InfErr == "NumberError { error: Infinity }"
OobErr(i, len) == "IndexOutOfBounds { index: " \o IntStr(i) \o ", len: " \o IntStr(len) \o " }"
\* error text with a float in it
FltErr(pre, v, post) == LET s == NumDbg(v) IN IF s = "?" THEN "~" \o pre ELSE pre \o s \o post

\* conversions; st as above, no heap
ToNum(v) == IF IsNum(v) THEN <<0, v>>
            ELSE IF v.t = "s" THEN LET r == ParseNum(v.s) IN IF r.t = "none" THEN <<1, ConvErr(v, "Number")>> ELSE IF r.t = "taint" THEN <<2, "number text">> ELSE <<0, r>>
            ELSE IF v.t = "u" THEN <<2, "unknown text as number">> ELSE <<1, ConvErr(v, "Number")>>
ToText(v) == IF v.t = "s" THEN <<0, v>> ELSE IF IsNum(v) THEN <<0, NumText(v)>> ELSE IF v.t = "u" THEN <<0, UnkS>> ELSE <<1, ConvErr(v, "Text")>>
ToBool(v) == IF v.t = "b" THEN <<0, v>> ELSE <<1, ConvErr(v, "Bool")>>
ToList(v) == IF v.t = "l" THEN <<0, v>> ELSE <<1, ConvErr(v, "List")>>

(***************************************************************************)
(* Printing (Display / Debug of a value)                                   *)
(***************************************************************************)
\* <<ok, text>>; ent(i) gives the name of entity i; dbg = quoted style
RECURSIVE Fmt(_, _, _, _, _)
Fmt(h, nm, v, dbg, path) ==
  CASE v.t = "b" -> <<TRUE, IF v.b THEN "true" ELSE "false">>
    [] v.t = "n" -> LET s == NumStr(v) IN <<s # "", s>>
    [] v.t = "s" -> <<TRUE, IF dbg THEN Quote(v.s) ELSE v.s>>
    [] v.t = "e" -> <<TRUE, "Entity " \o Quote(nm[v.e])>>
    [] v.t = "f" -> <<TRUE, IF v.w THEN "[OutputFile]" ELSE "[InputFile]">>
    [] v.t = "l" -> IF v.l \in path THEN <<TRUE, "[...]">>
         ELSE LET x == h.L[v.l]
                  r == FoldLeft(LAMBDA a, i: IF ~a[1] THEN a ELSE LET y == Fmt(h, nm, x[i], dbg, path \cup {v.l}) IN <<y[1], a[2] \o y[2] \o (IF i < Len(x) THEN "," ELSE "")>>, <<TRUE, "">>, Range0(Len(x)))
              IN <<r[1], "[" \o r[2] \o "]">>
    [] OTHER -> <<FALSE, "">>
DisplayText(h, nm, v) == LET r == Fmt(h, nm, v, FALSE, {}) IN IF r[1] THEN T(r[2]) ELSE UnkS

(***************************************************************************)
(* CSV                                                                     *)
(***************************************************************************)
CsvParse(s) == \* <<TRUE, rows>> or <<FALSE>>
  LET fin(a) == [a EXCEPT !.vec = Append(@, a.sc), !.sc = "", !.iq = FALSE, !.pend = FALSE]
      finv(a) == LET b == fin(a) IN [b EXCEPT !.tab = Append(@, b.vec), !.vec = <<>>]
      step(a, c) ==
        IF a.bad THEN a
        ELSE IF a.pend THEN (IF c = "\"" THEN [a EXCEPT !.sc = @ \o c, !.pend = FALSE] ELSE IF c = "," THEN fin(a) ELSE IF c = "\n" THEN finv(a) ELSE [a EXCEPT !.bad = TRUE])
        ELSE IF c = "\"" THEN (IF a.iq THEN [a EXCEPT !.pend = TRUE] ELSE IF a.sc = "" THEN [a EXCEPT !.iq = TRUE] ELSE [a EXCEPT !.bad = TRUE])
        ELSE IF c = "," /\ ~a.iq THEN fin(a)
        ELSE IF c = "\n" /\ ~a.iq THEN finv(a)
        ELSE [a EXCEPT !.sc = @ \o c]
      r == FoldLeft(step, [sc |-> "", iq |-> FALSE, pend |-> FALSE, vec |-> <<>>, tab |-> <<>>, bad |-> FALSE], Chars(s)) IN
  IF Len(s) = 0 THEN <<TRUE, <<>>>>
  ELSE IF r.bad \/ (r.iq /\ ~r.pend) THEN <<FALSE>> ELSE <<TRUE, finv(r).tab>>
CsvCell(s) == IF \E i \in 1..Len(s) : Ch(s, i) \in {"\"", ",", "\n"}
              THEN "\"" \o JoinStr([i \in 1..Len(s) |-> IF Ch(s, i) = "\"" THEN "\"\"" ELSE Ch(s, i)]) \o "\"" ELSE s
\* accumulators <<st, text>>
CsvRow(h, acc, items) ==
  FoldLeft(LAMBDA a, i: IF a[1] = 1 THEN a ELSE LET t == ToText(items[i]) IN
     IF t[1] = 1 THEN t ELSE IF a[1] = 2 \/ t[2].t = "u" THEN <<2, "">> ELSE <<0, a[2] \o (IF i > 1 THEN "," ELSE "") \o CsvCell(t[2].s)>>, acc, Range0(Len(items)))
ToCsv(h, v) ==
  IF ~IsL(v) THEN Er(h, ConvErr(v, "List"))
  ELSE LET x == h.L[v.l]
           tab == \E i \in 1..Len(x) : IsL(x[i])
           r == IF ~tab THEN CsvRow(h, <<0, "">>, x)
                ELSE FoldLeft(LAMBDA a, i: IF a[1] = 1 THEN a ELSE IF ~IsL(x[i]) THEN <<1, ConvErr(x[i], "List")>>
                                           ELSE CsvRow(h, IF i > 1 /\ a[1] = 0 THEN <<0, a[2] \o "\n">> ELSE a, h.L[x[i].l]), <<0, "">>, Range0(Len(x)))
       IN IF r[1] = 1 THEN Er(h, r[2]) ELSE IF r[1] = 2 THEN Ok(h, UnkS) ELSE Ok(h, T(r[2]))

(***************************************************************************)
(* JSON                                                                    *)
(***************************************************************************)
JWs == {" ", "\t", "\n", "\r"}
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ Ch(s, i) \in JWs THEN SkipWs(s, i + 1) ELSE i
JFail == <<FALSE>>
RECURSIVE JNumEnd(_, _)
JNumEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in (Digits \cup {"+", "-", ".", "e", "E"}) THEN JNumEnd(s, i + 1) ELSE i
IsDigitAt(s, i) == i <= Len(s) /\ Ch(s, i) \in Digits
JNumOk(s) == \* the JSON number grammar
  LET i0 == IF Len(s) >= 1 /\ Ch(s, 1) = "-" THEN 2 ELSE 1
      run[i \in 1..(Len(s) + 1)] == IF IsDigitAt(s, i) THEN run[i + 1] ELSE i
      i1 == IF i0 > Len(s) THEN i0 ELSE run[i0]
      frac == IF i1 <= Len(s) /\ Ch(s, i1) = "." THEN (IF IsDigitAt(s, i1 + 1) THEN run[i1 + 1] ELSE 0) ELSE i1
      e0 == IF frac > 0 /\ frac <= Len(s) /\ Ch(s, frac) \in {"e", "E"} THEN (IF frac + 1 <= Len(s) /\ Ch(s, frac + 1) \in {"+", "-"} THEN frac + 2 ELSE frac + 1) ELSE 0
      e1 == IF e0 = 0 THEN frac ELSE IF IsDigitAt(s, e0) THEN run[e0] ELSE 0 IN
  /\ i1 > i0 /\ (Ch(s, i0) = "0" => i1 = i0 + 1) /\ frac > 0 /\ e1 = Len(s) + 1
\* string body starting after the opening quote: <<ok, text, next>>
RECURSIVE JStr(_, _, _)
JStr(s, i, acc) ==
  IF i > Len(s) THEN JFail
  ELSE LET c == Ch(s, i) IN
    IF c = "\"" THEN <<TRUE, acc, i + 1>>
    ELSE IF c = "\\" THEN
      (IF i + 1 > Len(s) THEN JFail
       ELSE LET d == Ch(s, i + 1) IN
         IF d \in {"\"", "\\", "/"} THEN JStr(s, i + 2, acc \o d)
         ELSE IF d = "n" THEN JStr(s, i + 2, acc \o "\n") ELSE IF d = "r" THEN JStr(s, i + 2, acc \o "\r") ELSE IF d = "t" THEN JStr(s, i + 2, acc \o "\t")
         ELSE IF d = "u" /\ i + 5 <= Len(s) /\ (\A j \in 2..5 : Ch(s, i + j) \in DOMAIN HexVal) THEN
           LET u == HexVal[Ch(s, i + 2)] * 4096 + HexVal[Ch(s, i + 3)] * 256 + HexVal[Ch(s, i + 4)] * 16 + HexVal[Ch(s, i + 5)] IN
           IF u \in DOMAIN CharOf THEN JStr(s, i + 6, acc \o CharOf[u]) ELSE <<FALSE, "taint">>
         ELSE IF d \in {"b", "f"} THEN <<FALSE, "taint">> ELSE JFail)
    ELSE IF c \in {"\n", "\r", "\t"} \/ (c \in CharSet /\ CodeOf[c] < 32) THEN JFail
    ELSE JStr(s, i + 1, acc \o c)
RECURSIVE JVal(_, _), JArr(_, _, _), JObj(_, _, _)
JVal(s, i0) ==
  LET i == SkipWs(s, i0) IN
  IF i > Len(s) THEN JFail
  ELSE LET c == Ch(s, i) IN
    CASE c = "\"" -> (LET r == JStr(s, i + 1, "") IN IF r[1] THEN <<TRUE, T(r[2]), r[3]>> ELSE r)
      [] c = "[" -> (LET j == SkipWs(s, i + 1) IN IF j <= Len(s) /\ Ch(s, j) = "]" THEN <<TRUE, [t |-> "l", e |-> <<>>], j + 1>> ELSE JArr(s, i + 1, <<>>))
      [] c = "{" -> (LET j == SkipWs(s, i + 1) IN IF j <= Len(s) /\ Ch(s, j) = "}" THEN <<TRUE, [t |-> "o", e |-> <<>>], j + 1>> ELSE JObj(s, i + 1, <<>>))
      [] c = "t" /\ i + 3 <= Len(s) /\ SubSeq(s, i, i + 3) = "true" -> <<TRUE, B(TRUE), i + 4>>
      [] c = "f" /\ i + 4 <= Len(s) /\ SubSeq(s, i, i + 4) = "false" -> <<TRUE, B(FALSE), i + 5>>
      [] c = "n" /\ i + 3 <= Len(s) /\ SubSeq(s, i, i + 3) = "null" -> <<TRUE, [t |-> "null"], i + 4>>
      [] c = "-" \/ c \in Digits -> (LET j == JNumEnd(s, i)  x == SubSeq(s, i, j - 1) IN
           IF ~JNumOk(x) THEN JFail ELSE LET v == DecParse(x) IN IF v.t = "none" THEN JFail ELSE IF v.t = "taint" THEN <<FALSE, "taint">> ELSE <<TRUE, v, j>>)
      [] OTHER -> JFail
JArr(s, i, acc) ==
  LET r == JVal(s, i) IN
  IF ~r[1] THEN r
  ELSE LET j == SkipWs(s, r[3]) IN
    IF j > Len(s) THEN JFail
    ELSE IF Ch(s, j) = "]" THEN <<TRUE, [t |-> "l", e |-> Append(acc, r[2])], j + 1>>
    ELSE IF Ch(s, j) = "," THEN JArr(s, j + 1, Append(acc, r[2])) ELSE JFail
JPut(acc, k, v) == \* sorted by key, later duplicates win
  LET low == SelectSeq(acc, LAMBDA e: CmpStr(e[1], k) = "lt")
      high == SelectSeq(acc, LAMBDA e: CmpStr(e[1], k) = "gt") IN low \o <<<<k, v>>>> \o high
JObj(s, i0, acc) ==
  LET i == SkipWs(s, i0) IN
  IF i > Len(s) \/ Ch(s, i) # "\"" THEN JFail
  ELSE LET k == JStr(s, i + 1, "") IN
    IF ~k[1] THEN k
    ELSE LET j == SkipWs(s, k[3]) IN
      IF j > Len(s) \/ Ch(s, j) # ":" THEN JFail
      ELSE LET r == JVal(s, j + 1) IN
        IF ~r[1] THEN r
        ELSE LET q == SkipWs(s, r[3])  acc2 == JPut(acc, k[2], r[2]) IN
          IF q > Len(s) THEN JFail
          ELSE IF Ch(s, q) = "}" THEN <<TRUE, [t |-> "o", e |-> acc2], q + 1>>
          ELSE IF Ch(s, q) = "," THEN JObj(s, q + 1, acc2) ELSE JFail
\* the whole text: <<TRUE, tree>>, <<FALSE>> or <<FALSE, "taint">>
JsonParse(s) == LET r == JVal(s, 1) IN IF ~r[1] THEN r ELSE IF SkipWs(s, r[3]) > Len(s) THEN <<TRUE, r[2]>> ELSE JFail
RECURSIVE HasNull(_)
HasNull(j) == j.t = "null" \/ (j.t = "l" /\ \E i \in 1..Len(j.e) : HasNull(j.e[i])) \/ (j.t = "o" /\ \E i \in 1..Len(j.e) : HasNull(j.e[i][2]))
\* a host value or JSON tree into the heap: <<h, v>> (objects become lists of pairs)
RECURSIVE Import(_, _)
Import(h, j) ==
  IF j.t = "l" THEN
    LET r == FoldLeft(LAMBDA a, x: LET y == Import(a[1], x) IN <<y[1], Append(a[2], y[2])>>, <<h, <<>>>>, j.e)
        z == Alloc(r[1], r[2]) IN <<z[2], z[3]>>
  ELSE IF j.t = "o" THEN
    LET r == FoldLeft(LAMBDA a, x: LET y == Import(a[1], x[2])  z == Alloc(y[1], <<T(x[1]), y[2]>>) IN <<z[2], Append(a[2], z[3])>>, <<h, <<>>>>, j.e)
        z == Alloc(r[1], r[2]) IN <<z[2], z[3]>>
  ELSE <<h, j>>
\* SimpleValue tree of a value: <<st, tree>>
RECURSIVE Simplify(_, _, _)
Simplify(h, v, path) ==
  IF v.t = "l" THEN
    IF v.l \in path THEN <<1, "ToSimpleError { error: Cyclic }">>
    ELSE LET x == h.L[v.l]
             r == FoldLeft(LAMBDA a, i: IF a[1] # 0 THEN a ELSE LET y == Simplify(h, x[i], path \cup {v.l}) IN IF y[1] # 0 THEN y ELSE <<0, Append(a[2], y[2])>>, <<0, <<>>>>, Range0(Len(x)))
         IN IF r[1] # 0 THEN r ELSE <<0, [t |-> "l", e |-> r[2]]>>
  ELSE IF v.t \in {"c", "e", "f"} THEN <<1, "ToSimpleError { error: ComplexType(" \o TypeName(v) \o ") }">>
  ELSE <<0, v>>
RECURSIVE JsonText(_)
JsonText(j) == \* <<st, text>>
  CASE j.t = "l" -> (LET r == FoldLeft(LAMBDA a, i: IF a[1] = 1 THEN a ELSE LET y == JsonText(j.e[i]) IN IF y[1] = 1 THEN y ELSE <<Max2(a[1], y[1]), a[2] \o (IF i > 1 THEN "," ELSE "") \o y[2]>>, <<0, "">>, Range0(Len(j.e))) IN
                      IF r[1] = 1 THEN r ELSE <<r[1], "[" \o r[2] \o "]">>)
    [] j.t = "b" -> <<0, IF j.b THEN "true" ELSE "false">>
    [] j.t = "s" -> <<0, "\"" \o FoldLeft(LAMBDA a, c: a \o (CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\r" -> "\\r" [] c = "\t" -> "\\t"
                          [] c \in {Chr.ctl[i][1] : i \in 1..2} -> (IF CodeOf[c] = 0 THEN Chr.ctl[1][2] ELSE Chr.ctl[2][2]) [] OTHER -> c), "", Chars(j.s)) \o "\"">>
    [] j.t = "n" -> (LET s == NumDbg(j) IN IF s = "?" THEN <<2, "">> ELSE <<0, s>>)
    [] j.t \in {"i", "au"} -> <<1, "IntoJsonError { error: ComplexType(" \o TypeName(j) \o ") }">>
    [] OTHER -> <<2, "">>
ToJsonText(h, v) ==
  LET x == Simplify(h, v, {}) IN
  IF x[1] # 0 THEN Er(h, x[2]) ELSE LET y == JsonText(x[2]) IN IF y[1] = 1 THEN Er(h, y[2]) ELSE IF y[1] = 2 THEN Ok(h, UnkS) ELSE Ok(h, T(y[2]))

(***************************************************************************)
(* Scalar operators                                                        *)
(***************************************************************************)
Draw(h) == IF Len(h.rs) = 0 THEN 0 ELSE h.rs[(h.ri % Len(h.rs)) + 1]
RandInt(h, lo, n) == <<[h EXCEPT !.ri = @ + 1], lo + ((n * Draw(h)) \div 16)>>      \* uniform over lo .. lo+n-1

\* index value against a length: <<st, i>> with i 1-based
PrepIndex(v, len) ==
  LET r == ToNum(v) IN
  IF r[1] # 0 THEN r
  ELSE IF r[2].t # "n" THEN <<2, "index">>
  ELSE IF r[2].k # 0 THEN <<1, FltErr("IndexNotInteger { index: ", r[2], " }")>>
  ELSE IF r[2].n < 1 \/ r[2].n > len THEN <<1, OobErr(r[2].n, len)>> ELSE <<0, r[2].n>>

Res(h, r) == <<r[1], h, r[2]>>
NumUn(h, v, F(_)) == LET r == ToNum(v) IN IF r[1] # 0 THEN Res(h, r) ELSE Ok(h, F(r[2]))
TextUn(h, v, F(_)) == LET r == ToText(v) IN IF r[1] # 0 THEN Res(h, r) ELSE IF r[2].t = "u" THEN Ta(h, "unknown text") ELSE F(r[2].s)
IntDeg(x) == IsInt(x)
UnS(op, h, v) ==
  CASE op = "tonum" -> NumUn(h, v, LAMBDA x: x)
    [] op = "neg" -> NumUn(h, v, NegNum)
    [] op = "abs" -> NumUn(h, v, AbsNum)
    [] op = "round" -> NumUn(h, v, RoundNum)
    [] op = "floor" -> NumUn(h, v, FloorNum)
    [] op = "ceil" -> NumUn(h, v, CeilNum)
    [] op = "not" -> (LET r == ToBool(v) IN IF r[1] # 0 THEN Res(h, r) ELSE Ok(h, B(~r[2].b)))
    [] op = "sqrt" -> (LET r == ToNum(v) IN IF r[1] # 0 THEN Res(h, r) ELSE LET s == Sign(r[2]) IN IF s = 2 THEN Ta(h, "sqrt sign") ELSE IF s < 0 THEN Er(h, NanErr) ELSE Ok(h, SqrtNum(r[2])))
    [] op = "sin" -> NumUn(h, v, LAMBDA x: IF x = Zero THEN Zero ELSE IF IntDeg(x) THEN Apx(SinDeg(x.n), 1) ELSE UnkN)
    [] op = "cos" -> NumUn(h, v, LAMBDA x: IF x = Zero THEN I(1) ELSE IF IntDeg(x) THEN Apx(CosDeg(x.n), 1) ELSE UnkN)
    [] op = "tan" -> NumUn(h, v, LAMBDA x: IF x = Zero THEN Zero ELSE IF IntDeg(x) /\ x.n % 180 = 0 THEN Apx(0, 1) ELSE IF IntDeg(x) /\ x.n % 180 = 45 THEN Apx(10000, 1)
                                           ELSE IF IntDeg(x) /\ x.n % 180 = 135 THEN Apx(-10000, 1)
                                           ELSE IF IntDeg(x) /\ x.n % 90 # 0 /\ Abs(CosDeg(x.n)) > 2000 THEN Apx((SinDeg(x.n) * 10000) \div CosDeg(x.n), 40) ELSE UnkN)
    [] op \in {"asin", "acos"} -> (LET r == ToNum(v) IN
          IF r[1] # 0 THEN Res(h, r)
          ELSE LET x == r[2]  c == CmpNum(AbsNum(x), I(1)) IN
            IF c = "?" THEN Ta(h, "asin domain") ELSE IF c = "gt" THEN Er(h, NanErr)
            ELSE IF x = Zero THEN Ok(h, IF op = "asin" THEN Zero ELSE Apx(900000, 1))
            ELSE IF x = I(1) THEN Ok(h, IF op = "asin" THEN Apx(900000, 1) ELSE Zero)
            ELSE IF x = I(-1) THEN Ok(h, IF op = "asin" THEN Apx(-900000, 1) ELSE Apx(1800000, 1))
            ELSE IF x = [t |-> "n", n |-> 1, k |-> 1] THEN Ok(h, IF op = "asin" THEN Apx(300000, 1) ELSE Apx(600000, 1))
            ELSE IF x = [t |-> "n", n |-> -1, k |-> 1] THEN Ok(h, IF op = "asin" THEN Apx(-300000, 1) ELSE Apx(1200000, 1))
            ELSE Ok(h, UnkN))
    [] op = "atan" -> NumUn(h, v, LAMBDA x: IF x = Zero THEN Zero ELSE IF x = I(1) THEN Apx(450000, 1) ELSE IF x = I(-1) THEN Apx(-450000, 1) ELSE UnkN)
    [] op = "strlen" -> TextUn(h, v, LAMBDA s: Ok(h, I(Len(Graphemes(s)))))
    [] op = "strgetlast" -> TextUn(h, v, LAMBDA s: IF s = "" THEN Er(h, OobErr(1, 0)) ELSE Ok(h, T(Graphemes(s)[Len(Graphemes(s))])))
    [] op = "strgetrandom" -> TextUn(h, v, LAMBDA s: IF s = "" THEN Er(h, OobErr(1, 0)) ELSE LET d == RandInt(h, 1, Len(Graphemes(s))) IN Ok(d[1], T(Graphemes(s)[d[2]])))
    [] op = "letter" -> TextUn(h, v, LAMBDA s: Alloc(h, Ts(Graphemes(s))))
    [] op = "word" -> TextUn(h, v, LAMBDA s: Alloc(h, Ts(Words(s))))
    [] op = "tab" -> TextUn(h, v, LAMBDA s: Alloc(h, Ts(SplitOn(s, "\t"))))
    [] op = "cr" -> TextUn(h, v, LAMBDA s: Alloc(h, Ts(SplitOn(s, "\r"))))
    [] op = "lf" -> TextUn(h, v, LAMBDA s: Alloc(h, Ts(Lines(s))))
    [] op = "csv" -> TextUn(h, v, LAMBDA s: LET r == CsvParse(s) IN
          IF ~r[1] THEN Er(h, "NotCsv { value: " \o Quote(s) \o " }")
          ELSE LET x == FoldLeft(LAMBDA a, row: LET y == Alloc(a[1], Ts(row)) IN <<y[2], Append(a[2], y[3])>>, <<h, <<>>>>, r[2]) IN Alloc(x[1], x[2]))
    [] op = "json" -> TextUn(h, v, LAMBDA s: LET r == JsonParse(s) IN
          IF ~r[1] THEN (IF Len(r) > 1 THEN Ta(h, "json escape") ELSE Er(h, "NotJson { value: " \o Quote(s) \o " }"))
          ELSE IF HasNull(r[2]) THEN Er(h, "FromJsonError { error: Null }") ELSE LET x == Import(h, r[2]) IN Ok(x[1], x[2]))
    [] op = "tochar" -> (LET r == ToNum(v) IN
          IF r[1] # 0 THEN Res(h, r)
          ELSE IF r[2].t # "n" THEN Ta(h, "code point")
          ELSE IF r[2].k # 0 \/ r[2].n < 0 \/ r[2].n > 1114111 \/ (r[2].n >= 55296 /\ r[2].n < 57344) THEN Er(h, FltErr("InvalidUnicode { value: ", r[2], " }"))
          ELSE IF r[2].n \in DOMAIN CharOf THEN Ok(h, T(CharOf[r[2].n])) ELSE Ok(h, UnkS))
    [] op = "tocode" -> TextUn(h, v, LAMBDA s: LET c == CodePoints(s) IN IF Len(c) = 1 THEN Ok(h, I(c[1][2])) ELSE Alloc(h, [i \in 1..Len(c) |-> I(c[i][2])]))
    [] OTHER -> Ta(h, "unary " \o op)

RECURSIVE RangeSeq(_, _, _)
RangeSeq(a, b, up) == LET n == LET d == FloorNum(IF up THEN SubNum(b, a) ELSE SubNum(a, b)) IN d.n + 1 IN
  [i \in 1..n |-> AddNum(a, I(IF up THEN i - 1 ELSE 1 - i))]
Bin2(h, a, b, F(_, _)) == LET x == ToNum(a) IN IF x[1] # 0 THEN Res(h, x) ELSE LET y == ToNum(b) IN IF y[1] # 0 THEN Res(h, y) ELSE F(x[2], y[2])
Atan2V(y, x) == \* degrees
  IF y.t # "n" \/ x.t # "n" THEN UnkN
  ELSE IF y.n = 0 /\ x.n >= 0 THEN Zero
  ELSE IF y.n = 0 THEN Apx(1800000, 1)
  ELSE IF x.n = 0 THEN Apx(IF y.n > 0 THEN 900000 ELSE -900000, 1)
  ELSE IF x = y THEN Apx(IF y.n > 0 THEN 450000 ELSE -1350000, 1)
  ELSE IF x = NegNum(y) THEN Apx(IF y.n > 0 THEN 1350000 ELSE -450000, 1) ELSE UnkN
\* a result that may be out of range is left undecided
Bounded(h, r, g) == IF r.t # "u" THEN Ok(h, r) ELSE IF g > 300 THEN Ta(h, "magnitude") ELSE Ok(h, UnkG(g))
Dig10(x) == IF x.t = "n" THEN Len(IntStr(Abs(x.n) \div Pow2(x.k))) ELSE 6
BinS(op, h, a, b) ==
  CASE op = "add" -> Bin2(h, a, b, LAMBDA x, y: Bounded(h, AddNum(x, y), Max2(Mag(x), Mag(y)) + 1))
    [] op = "sub" -> Bin2(h, a, b, LAMBDA x, y: Bounded(h, SubNum(x, y), Max2(Mag(x), Mag(y)) + 1))
    [] op = "mul" -> Bin2(h, a, b, LAMBDA x, y: Bounded(h, MulNum(x, y), Mag(x) + Mag(y)))
    [] op = "div" -> Bin2(h, a, b, LAMBDA x, y: LET s == Sign(y) IN
          IF s = 2 THEN Ta(h, "divisor sign") ELSE IF s # 0 THEN Bounded(h, DivNum(x, y), Mag(x) + 5) ELSE IF Sign(x) = 2 THEN Ta(h, "dividend sign") ELSE IF Sign(x) = 0 THEN Er(h, NanErr) ELSE Er(h, InfErr))
    [] op = "mod" -> Bin2(h, a, b, LAMBDA x, y: LET s == Sign(y) IN IF s = 2 THEN Ta(h, "modulus sign") ELSE IF s = 0 THEN Er(h, NanErr) ELSE Bounded(h, ModNum(x, y), Mag(y)))
    [] op = "pow" -> Bin2(h, a, b, LAMBDA x, y:
          IF x.t = "u" \/ y.t # "n" THEN Ta(h, "pow")
          ELSE IF y.n = 0 THEN Ok(h, I(1))
          ELSE IF x = I(1) THEN Ok(h, I(1))
          ELSE IF x = Zero THEN (IF y.n < 0 THEN Er(h, InfErr) ELSE Ok(h, Zero))
          ELSE IF y.k = 0 /\ y.n > 0 /\ y.n <= 40 /\ x.t = "n" THEN Bounded(h, PowI(x, y.n, I(1)), Dig10(x) * y.n)
          ELSE IF y.k = 0 /\ y.n < 0 /\ y.n >= -12 /\ x.t = "n" THEN (LET p == PowI(x, -y.n, I(1)) IN IF p.t = "n" THEN Ok(h, DivNum(I(1), p)) ELSE Ok(h, UnkN))
          ELSE IF y.k > 0 /\ Sign(x) = -1 THEN Er(h, NanErr)
          ELSE IF y = [t |-> "n", n |-> 1, k |-> 1] /\ x.t = "n" THEN Ok(h, LET r == SqrtNum(x) IN IF r.t = "n" THEN Apx((r.n * 10000) \div Pow2(r.k), 1) ELSE r)
          ELSE IF y.k > 0 /\ Sign(x) = 1 /\ Abs(y.n) \div Pow2(y.k) < 20 /\ x.t = "n" /\ Abs(x.n) \div Pow2(x.k) < 1000 THEN Ok(h, UnkG(70))
          ELSE Ta(h, "pow"))
    [] op = "log" -> Bin2(h, b, a, LAMBDA y, x:     \* log base x of y
          IF Sign(x) = 2 \/ Sign(y) = 2 THEN Ta(h, "log")
          ELSE IF Sign(x) = -1 \/ Sign(y) = -1 THEN Er(h, NanErr)
          ELSE IF Sign(y) = 0 THEN (IF Sign(x) = 0 THEN Er(h, NanErr) ELSE Er(h, InfErr))
          ELSE IF Sign(x) = 0 THEN Ok(h, Zero)
          ELSE IF x = I(1) THEN (IF y = I(1) THEN Er(h, NanErr) ELSE IF y.t = "n" THEN Er(h, InfErr) ELSE Ta(h, "log"))
          ELSE IF y = I(1) THEN Ok(h, Zero)
          ELSE IF x = y THEN Ok(h, Apx(10000, 1))
          ELSE IF IsInt(x) /\ IsInt(y) /\ \E q \in 2..20 : PowI(x, q, I(1)) = y THEN Ok(h, Apx(10000 * (CHOOSE q \in 2..20 : PowI(x, q, I(1)) = y), 1))
          ELSE Ok(h, UnkN))
    [] op = "atan2" -> Bin2(h, a, b, LAMBDA y, x: Ok(h, Atan2V(y, x)))
    [] op = "strget" -> (LET s == ToText(b) IN
          IF s[1] # 0 THEN Res(h, s) ELSE IF s[2].t = "u" THEN Ta(h, "unknown text")
          ELSE LET g == Graphemes(s[2].s)  i == PrepIndex(a, Len(g)) IN IF i[1] # 0 THEN Res(h, i) ELSE Ok(h, T(g[i[2]])))
    [] op = "splitby" -> (LET s == ToText(a) IN IF s[1] # 0 THEN Res(h, s) ELSE LET p == ToText(b) IN IF p[1] # 0 THEN Res(h, p)
          ELSE IF s[2].t = "u" \/ p[2].t = "u" THEN Ta(h, "unknown text") ELSE Alloc(h, Ts(SplitBy(s[2].s, p[2].s))))
    [] op = "range" -> Bin2(h, a, b, LAMBDA x, y:
          IF x.t # "n" \/ y.t # "n" THEN Ta(h, "range")
          ELSE IF Abs((x.n \div Pow2(x.k)) - (y.n \div Pow2(y.k))) > 3000 \/ Abs(x.n) > 1000000 THEN Ta(h, "range size")
          ELSE Alloc(h, RangeSeq(x, y, CmpNum(x, y) # "gt")))
    [] op = "random" -> Bin2(h, a, b, LAMBDA x, y:
          IF x.t # "n" \/ y.t # "n" THEN Ta(h, "random")
          ELSE LET sw == CmpNum(x, y) = "gt"  lo == IF sw THEN y ELSE x  hi == IF sw THEN x ELSE y IN
            IF lo.k = 0 /\ hi.k = 0 THEN (IF hi.n - lo.n < 100000000 THEN LET d == RandInt(h, lo.n, hi.n - lo.n + 1) IN Ok(d[1], I(d[2])) ELSE Ok([h EXCEPT !.ri = @ + 1], UnkN))
            ELSE Ok([h EXCEPT !.ri = @ + 1], UnkN))
    [] OTHER -> Ta(h, "binary " \o op)

(***************************************************************************)
(* Broadcasting over lists.  A list reached twice in the same role yields  *)
(* one result list, so sharing and cycles of the operands are mirrored.    *)
(***************************************************************************)
IdOf(v, pos) == IF IsL(v) THEN <<0, v.l>> ELSE pos
RECURSIVE UnR(_, _, _, _, _)
\* <<st, h, res, cache>>; cache: list id -> result; K(h, scalar)
UnR(op, h, v, cache, det) ==
  IF ~IsL(v) THEN LET r == UnS(op, h, v) IN <<r[1], r[2], r[3], cache>>
  ELSE IF v.l \in DOMAIN cache THEN <<0, h, cache[v.l], cache>>
  ELSE LET x == h.L[v.l]
           al == Alloc(h, <<>>)
           rid == al[3].l
           r == FoldLeft(LAMBDA a, i: IF a[1] # 0 THEN a ELSE LET y == UnR(op, a[2], x[i], a[4], det) IN IF y[1] # 0 THEN y ELSE <<0, y[2], Append(a[3], y[3]), y[4]>>,
                         <<0, al[2], <<>>, (v.l :> al[3]) @@ cache>>, Range0(Len(x)))
       IN IF r[1] # 0 THEN r
          ELSE <<0, [r[2] EXCEPT !.L[rid] = r[3]], al[3], IF det THEN r[4] ELSE cache>>
NonDet == {"strgetrandom"}
Un(op, h, v) == IF ~IsL(v) THEN UnS(op, h, v) ELSE LET r == UnR(op, h, v, <<>>, op \notin NonDet) IN <<r[1], r[2], r[3]>>

IsM(h, v) == IsL(v) /\ Len(h.L[v.l]) > 0 /\ IsL(h.L[v.l][1])
RECURSIVE BinR(_, _, _, _, _, _, _, _)
BinR(op, h, a, pa, b, pb, mx, cache) ==
  LET key == <<IdOf(a, pa), IdOf(b, pb), mx>> IN
  IF key \in DOMAIN cache THEN <<0, h, cache[key], cache>>
  ELSE LET la == IF mx THEN IsM(h, a) ELSE IsL(a)
           lb == IF mx THEN IsM(h, b) ELSE IsL(b) IN
    IF ~la /\ ~lb THEN (IF mx THEN BinR(op, h, a, pa, b, pb, FALSE, cache) ELSE LET r == BinS(op, h, a, b) IN <<r[1], r[2], r[3], cache>>)
    ELSE LET xa == IF la THEN h.L[a.l] ELSE <<>>
             xb == IF lb THEN h.L[b.l] ELSE <<>>
             n == IF la /\ lb THEN Min2(Len(xa), Len(xb)) ELSE Len(xa) + Len(xb)
             al == Alloc(h, <<>>)
             r == FoldLeft(LAMBDA s, i: IF s[1] # 0 THEN s
                     ELSE LET y == BinR(op, s[2], IF la THEN xa[i] ELSE a, IF la THEN <<a.l, i>> ELSE pa, IF lb THEN xb[i] ELSE b, IF lb THEN <<b.l, i>> ELSE pb, mx, s[4])
                          IN IF y[1] # 0 THEN y ELSE <<0, y[2], Append(s[3], y[3]), y[4]>>,
                   <<0, al[2], <<>>, (key :> al[3]) @@ cache>>, Range0(n))
         IN IF r[1] # 0 THEN r ELSE <<0, [r[2] EXCEPT !.L[al[3].l] = r[3]], al[3], r[4]>>
Bin(op, h, a, b) == IF ~IsL(a) /\ ~IsL(b) THEN BinS(op, h, a, b) ELSE LET r == BinR(op, h, a, <<-1, 1>>, b, <<-1, 2>>, TRUE, <<>>) IN <<r[1], r[2], r[3]>>

(***************************************************************************)
(* Comparison                                                              *)
(***************************************************************************)
TextNum(s) == ParseNum(s)
\* "lt" "eq" "gt" "none" "?"
CmpTN(s, n) == LET p == ParseNum(s) IN IF p.t = "taint" THEN "?" ELSE IF p.t # "none" THEN CmpNum(p, n)
               ELSE LET t == NumStr(n) IN IF t = "" THEN "?" ELSE CmpFold(s, t)
Flip(c) == IF c = "lt" THEN "gt" ELSE IF c = "gt" THEN "lt" ELSE c
CmpS(a, b) ==
  IF a.t = "b" /\ b.t = "b" THEN (IF a.b = b.b THEN "eq" ELSE IF b.b THEN "lt" ELSE "gt")
  ELSE IF a.t = "b" \/ b.t = "b" THEN "none"
  ELSE IF (a.t = "u" /\ b.t \in {"u", "n", "a", "s"}) \/ (b.t = "u" /\ a.t \in {"n", "a", "s"}) THEN "?"
  ELSE IF IsNum(a) /\ IsNum(b) THEN CmpNum(a, b)
  ELSE IF a.t = "s" /\ b.t = "s" THEN
    (LET x == ParseNum(a.s)  y == ParseNum(b.s) IN
     IF x.t = "taint" \/ y.t = "taint" THEN "?" ELSE IF x.t # "none" /\ y.t # "none" THEN (IF a.s = b.s THEN "eq" ELSE CmpNum(x, y)) ELSE CmpFold(a.s, b.s))
  ELSE IF a.t = "s" /\ IsNum(b) THEN CmpTN(a.s, b)
  ELSE IF IsNum(a) /\ b.t = "s" THEN Flip(CmpTN(b.s, a))
  ELSE IF a.t = b.t /\ a.t \in {"i", "au", "c", "e", "f"} THEN (IF a = b THEN "eq" ELSE "none")
  ELSE "none"
RECURSIVE CmpR(_, _, _, _), CmpL(_, _, _, _, _)
\* <<res, cache>>; res also "cyc"
CmpR(h, a, b, cache) ==
  IF ~IsL(a) \/ ~IsL(b) THEN <<CmpS(a, b), cache>>
  ELSE LET key == <<a.l, b.l>> IN
    IF key \in DOMAIN cache THEN (IF cache[key] = "busy" THEN <<"cyc", cache>> ELSE <<cache[key], cache>>)
    ELSE LET r == CmpL(h, h.L[a.l], h.L[b.l], 1, (key :> "busy") @@ cache) IN <<r[1], (key :> r[1]) @@ r[2]>>
CmpL(h, xa, xb, i, cache) ==
  IF i > Len(xa) THEN <<IF i > Len(xb) THEN "eq" ELSE "lt", cache>>
  ELSE IF i > Len(xb) THEN <<"gt", cache>>
  ELSE LET r == CmpR(h, xa[i], xb[i], cache) IN IF r[1] = "eq" THEN CmpL(h, xa, xb, i + 1, r[2]) ELSE r
Cmp(h, a, b) == IF IsL(a) /\ IsL(b) THEN CmpR(h, a, b, <<>>)[1] ELSE CmpS(a, b)
CycErr == "CyclicValue"
\* <<st, bool or msg>>
Rel(h, a, b, rel) ==
  LET c == Cmp(h, a, b) IN
  IF c = "cyc" THEN <<1, CycErr>>
  ELSE IF c = "?" THEN <<2, "comparison">>
  ELSE IF rel = "eq" THEN <<0, c = "eq">>
  ELSE IF rel = "ne" THEN <<0, c # "eq">>
  ELSE IF c = "none" THEN <<1, "Incomparable { left: " \o TypeName(a) \o ", right: " \o TypeName(b) \o " }">>
  ELSE <<0, CASE rel = "lt" -> c = "lt" [] rel = "le" -> c # "gt" [] rel = "gt" -> c = "gt" [] OTHER -> c # "lt">>
\* <<st, bool>>
Identical(a, b) ==
  IF (a.t \in {"u", "a"} \/ b.t \in {"u", "a"}) THEN
    (IF IsNum(a) /\ IsNum(b) THEN (IF CmpNum(a, b) \in {"?", "eq"} THEN <<2, "identity">> ELSE <<0, FALSE>>)
     ELSE IF TypeName(a) = TypeName(b) THEN <<2, "identity">> ELSE <<0, FALSE>>)
  ELSE <<0, a = b>>
\* <<st, i>> position of the first element equal to v, 0 if none
Find(h, xs, v) ==
  FoldLeft(LAMBDA s, i: IF s[1] # 0 \/ s[2] # 0 THEN s
     ELSE LET c == Cmp(h, xs[i], v) IN IF c = "cyc" THEN <<1, CycErr>> ELSE IF c = "?" THEN <<2, "comparison">> ELSE IF c = "eq" THEN <<0, i>> ELSE s, <<0, 0>>, Range0(Len(xs)))

(***************************************************************************)
(* List reporters                                                          *)
(***************************************************************************)
RECURSIVE FlatR(_, _, _)
FlatR(h, v, path) == \* <<st, seq>>
  IF ~IsL(v) THEN <<0, <<v>>>>
  ELSE IF v.l \in path THEN <<1, CycErr>>
  ELSE FoldLeft(LAMBDA a, x: IF a[1] # 0 THEN a ELSE LET y == FlatR(h, x, path \cup {v.l}) IN IF y[1] # 0 THEN y ELSE <<0, a[2] \o y[2]>>, <<0, <<>>>>, h.L[v.l])
RECURSIVE DimR(_, _, _, _, _)
DimR(h, v, d, acc, path) == \* <<st, dims>>
  IF ~IsL(v) THEN <<0, acc>>
  ELSE IF v.l \in path THEN <<1, CycErr>>
  ELSE LET x == h.L[v.l]
           acc1 == IF d > Len(acc) THEN Append(acc, Len(x)) ELSE [acc EXCEPT ![d] = Max2(@, Len(x))] IN
       FoldLeft(LAMBDA a, y: IF a[1] # 0 THEN a ELSE DimR(h, y, d + 1, a[2], path \cup {v.l}), <<0, acc1>>, x)
RECURSIVE ReshR(_, _, _, _, _)
ReshR(h, src, dims, d, pos) == \* <<h, v, pos>>
  IF d > Len(dims) THEN <<h, src[(pos % Len(src)) + 1], pos + 1>>
  ELSE LET r == FoldLeft(LAMBDA a, i: LET y == ReshR(a[1], src, dims, d + 1, a[3]) IN <<y[1], Append(a[2], y[2]), y[3]>>, <<h, <<>>, pos>>, Range0(dims[d]))
           z == Alloc(r[1], r[2]) IN <<z[2], z[3], r[3]>>
Columns(h, v) ==
  IF ~IsL(v) THEN Er(h, ConvErr(v, "List"))
  ELSE LET x == h.L[v.l]
           n == FoldLeft(LAMBDA a, y: Max2(a, IF IsL(y) THEN Len(h.L[y.l]) ELSE 1), 0, x)
           r == FoldLeft(LAMBDA a, c: LET z == Alloc(a[1], [i \in 1..Len(x) |-> IF ~IsL(x[i]) THEN x[i] ELSE IF c <= Len(h.L[x[i].l]) THEN h.L[x[i].l][c] ELSE Empty])
                                      IN <<z[2], Append(a[2], z[3])>>, <<h, <<>>>>, Range0(n))
       IN Alloc(r[1], r[2])
RECURSIVE CartR(_, _)
CartR(lists, i) == IF i > Len(lists) THEN <<<<>>>> ELSE LET rest == CartR(lists, i + 1) IN
  FoldLeft(LAMBDA a, x: a \o [j \in 1..Len(rest) |-> <<x>> \o rest[j]], <<>>, lists[i])
AllocAll(h, seqs) == LET r == FoldLeft(LAMBDA a, s: LET z == Alloc(a[1], s) IN <<z[2], Append(a[2], z[3])>>, <<h, <<>>>>, seqs) IN Alloc(r[1], r[2])
\* every operand must be a list: <<st, seq of seqs>>
AllLists(h, xs) == FoldLeft(LAMBDA a, x: IF a[1] # 0 THEN a ELSE IF IsL(x) THEN <<0, Append(a[2], h.L[x.l])>> ELSE <<1, ConvErr(x, "List")>>, <<0, <<>>>>, xs)
\* the set of positions an index value names: <<st, set>>
RECURSIVE IdxSet(_, _, _, _)
IdxSet(h, v, len, acc) == \* acc = <<st, set, seen>>
  IF acc[1] # 0 THEN acc
  ELSE IF IsL(v) THEN (IF v.l \in acc[3] THEN acc ELSE FoldLeft(LAMBDA a, x: IdxSet(h, x, len, a), <<0, acc[2], acc[3] \cup {v.l}>>, h.L[v.l]))
  ELSE LET p == PrepIndex(v, len) IN IF p[1] # 0 THEN <<p[1], p[2], {}>> ELSE <<0, acc[2] \cup {p[2]}, acc[3]>>
IndexSet(h, v, len) == IdxSet(h, v, len, <<0, {}, {}>>)
\* list selected by a (possibly nested) index
RECURSIVE GetR(_, _, _, _)
GetR(h, v, src, cache) == \* <<st, h, res, cache>>
  IF ~IsL(v) THEN LET p == PrepIndex(v, Len(src)) IN IF p[1] # 0 THEN <<p[1], h, p[2], cache>> ELSE <<0, h, src[p[2]], cache>>
  ELSE IF v.l \in DOMAIN cache THEN <<0, h, cache[v.l], cache>>
  ELSE LET x == h.L[v.l]
           al == Alloc(h, <<>>)
           r == FoldLeft(LAMBDA a, i: IF a[1] # 0 THEN a ELSE LET y == GetR(a[2], x[i], src, a[4]) IN IF y[1] # 0 THEN y ELSE <<0, y[2], Append(a[3], y[3]), y[4]>>,
                         <<0, al[2], <<>>, (v.l :> al[3]) @@ cache>>, Range0(Len(x)))
       IN IF r[1] # 0 THEN r ELSE <<0, [r[2] EXCEPT !.L[al[3].l] = r[3]], al[3], r[4]>>
ListGet(h, idx, lst) ==
  IF ~IsL(lst) THEN Er(h, ConvErr(lst, "List")) ELSE LET r == GetR(h, idx, h.L[lst.l], <<>>) IN <<r[1], r[2], r[3]>>
\* variadic combinations over a sequence of operands
FoldOps(h, xs, op, empty) ==
  IF Len(xs) = 0 THEN Ok(h, empty)
  ELSE IF Len(xs) = 1 THEN Un("tonum", h, xs[1])
  ELSE FoldLeft(LAMBDA a, i: IF a[1] # 0 THEN a ELSE Bin(op, a[2], a[3], xs[i]), Ok(h, xs[1]), [i \in 1..(Len(xs) - 1) |-> i + 1])
MinMax(h, xs, rel) ==
  IF Len(xs) = 0 THEN Er(h, "EmptyList")
  ELSE FoldLeft(LAMBDA a, x: IF a[1] # 0 THEN a ELSE LET r == Rel(h, x, a[3], rel) IN IF r[1] # 0 THEN <<r[1], h, r[2]>> ELSE IF r[2] THEN Ok(h, x) ELSE a, Ok(h, xs[1]), Tail(xs))
ReshapeDims(h, ds) == \* <<st, dims>>
  FoldLeft(LAMBDA a, d: IF a[1] # 0 THEN a ELSE LET r == ToNum(d) IN
     IF r[1] # 0 THEN r ELSE IF r[2].t # "n" THEN <<2, "dims">>
     ELSE IF r[2].k # 0 \/ r[2].n < 0 THEN <<1, FltErr("InvalidSize { value: ", r[2], " }")>> ELSE <<0, Append(a[2], r[2].n)>>, <<0, <<>>>>, ds)
Reshape(h, v, ds) ==
  LET d == ReshapeDims(h, ds) IN
  IF d[1] # 0 THEN Res(h, d)
  ELSE LET f == FlatR(h, v, {}) IN
    IF f[1] # 0 THEN Res(h, f)
    ELSE IF Len(f[2]) = 0 THEN Er(h, "EmptyList")
    ELSE IF FoldLeft(LAMBDA a, x: IF a > 5000 THEN a ELSE a * Max2(x, 1), 1, d[2]) > 5000 THEN Ta(h, "reshape size")
    ELSE LET r == ReshR(h, f[2], d[2], 1, 0) IN Ok(r[1], r[2])
(***************************************************************************)
(* Musical notes: a letter, then accidentals and exactly one octave in any *)
(* order.  [midi |-> 0..127 or -1 (not a note), nat |-> accidental given]  *)
(***************************************************************************)
NoteSemi == [C |-> 0, D |-> 2, E |-> 4, F |-> 5, G |-> 7, A |-> 9, B |-> 11, c |-> 0, d |-> 2, e |-> 4, f |-> 5, g |-> 7, a |-> 9, b |-> 11]
NoMidi == [midi |-> -1, nat |-> FALSE]
NoteName(s0) ==
  LET s == Trim(s0) IN
  IF Len(s) = 0 \/ Ch(s, 1) \notin DOMAIN NoteSemi THEN NoMidi
  ELSE LET \* ph: 0 no octave yet, 1 a sign was read, 2 inside the octave, 3 past it
           close(q) == IF q.ph = 1 THEN [q EXCEPT !.bad = TRUE] ELSE IF q.ph = 2 THEN [q EXCEPT !.ph = 3] ELSE q
           q == close(FoldLeft(LAMBDA q, c:
                  IF c \in Digits THEN (IF q.ph = 3 THEN [q EXCEPT !.bad = TRUE] ELSE [q EXCEPT !.ph = 2, !.oct = IF @ > 1000 THEN @ ELSE @ * 10 + DigVal[c]])
                  ELSE IF c \in {"+", "-"} THEN (IF q.ph # 0 THEN [q EXCEPT !.bad = TRUE] ELSE [q EXCEPT !.ph = 1, !.sg = IF c = "-" THEN -1 ELSE 1])
                  ELSE IF c \in {"s", "#", Sharp} THEN [close(q) EXCEPT !.dl = @ + 1, !.nat = TRUE]
                  ELSE IF c \in {"b", Flat} THEN [close(q) EXCEPT !.dl = @ - 1, !.nat = TRUE]
                  ELSE IF c \in {"n", Natural} THEN [close(q) EXCEPT !.nat = TRUE]
                  ELSE [q EXCEPT !.bad = TRUE],
                [bad |-> FALSE, oct |-> 0, ph |-> 0, sg |-> 1, dl |-> 0, nat |-> FALSE], Chars(SubSeq(s, 2, Len(s))))) IN
       IF q.bad \/ q.ph # 3 THEN NoMidi
       ELSE LET v == NoteSemi[Ch(s, 1)] + q.dl + 12 * (q.sg * q.oct + 1) IN IF v >= 0 /\ v <= 127 THEN [midi |-> v, nat |-> q.nat] ELSE NoMidi
=============================================================================
