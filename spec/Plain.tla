------------------------------- MODULE Plain ---------------------------------
(***************************************************************************)
(* Plain values and their JSON and NetsBlox JSON forms.                    *)
(* values:    [t |-> "b" "n" "u" "s" "l" "i" "au", ...]                    *)
(* documents: [t |-> "null" "b" "n" "u" "s" "l" "o" "x", ...]; "x" is text *)
(* given by its parts: a tag, attributes (text and bytes that follow it in *)
(* base64), and how it ends                                                *)
(* "u": a number the specification does not follow exactly                 *)
(***************************************************************************)
LOCAL INSTANCE Vals

B64 == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
RECURSIVE Base64(_)
Base64(c) ==
  IF c = <<>> THEN ""
  ELSE LET at(i) == IF i <= Len(c) THEN c[i] ELSE 0
           n == 65536 * at(1) + 256 * at(2) + at(3)
           d(k) == B64[((n \div k) % 64) + 1]
           q == IF Len(c) >= 3 THEN d(262144) \o d(4096) \o d(64) \o d(1) ELSE IF Len(c) = 2 THEN d(262144) \o d(4096) \o d(64) \o "=" ELSE d(262144) \o d(4096) \o "=="
       IN q \o Base64(SubSeq(c, 4, Len(c)))
XmlEsc(s) == FoldLeft(LAMBDA a, c: a \o (CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "'" -> "&apos;" [] c = "\"" -> "&quot;" [] OTHER -> c), "", Chars(s))

RECURSIVE HasMedia(_)
\* the first image or sound in it, depth first
HasMedia(v) == IF v.t = "i" THEN "Image" ELSE IF v.t = "au" THEN "Audio" ELSE IF v.t # "l" THEN ""
  ELSE LET S == {i \in 1..Len(v.e) : HasMedia(v.e[i]) # ""} IN IF S = {} THEN "" ELSE HasMedia(v.e[CHOOSE i \in S : \A j \in S : i <= j])
NumOk(e, r) == IF e.t = "n" THEN r = e ELSE r.t \in {"n", "u"}
RECURSIVE JsonOk(_, _)
\* r is the JSON form of v
JsonOk(v, r) ==
  CASE v.t \in {"n", "u"} -> NumOk(v, r)
    [] v.t = "b" -> r.t = "b" /\ r.b = v.b
    [] v.t = "s" -> r.t = "s" /\ r.s = v.s
    [] v.t = "l" -> r.t = "l" /\ Len(r.e) = Len(v.e) /\ \A i \in 1..Len(v.e) : JsonOk(v.e[i], r.e[i])
    [] OTHER -> FALSE
RECURSIVE NbOk(_, _)
NbOk(v, r) ==
  CASE v.t \in {"n", "u"} -> NumOk(v, r)
    [] v.t = "b" -> r.t = "b" /\ r.b = v.b
    [] v.t = "s" -> r.t = "s" /\ r.s = v.s
    [] v.t = "l" -> r.t = "l" /\ Len(r.e) = Len(v.e) /\ \A i \in 1..Len(v.e) : NbOk(v.e[i], r.e[i])
    [] v.t = "i" -> r.t = "s" /\
         LET head == "<costume name=\"" \o XmlEsc(v.i) \o "\""
             tail == " image=\"data:image/png;base64," \o Base64(v.c) \o "\" />" IN
         IF v.cx = <<>> THEN r.s = head \o tail
         ELSE IF NumStr(v.cx[1]) = "" \/ NumStr(v.cx[2]) = "" THEN StartsWith(r.s, head)
         ELSE r.s = head \o " center-x=\"" \o NumStr(v.cx[1]) \o "\" center-y=\"" \o NumStr(v.cx[2]) \o "\"" \o tail
    [] v.t = "au" -> r.t = "s" /\ r.s = "<sound name=\"" \o XmlEsc(v.au) \o "\" sound=\"data:audio/mpeg;base64," \o Base64(v.c) \o "\" />"
    [] OTHER -> FALSE

(* reading documents: a value, or an error *)
No(e) == [k |-> "err", e |-> e]
Yes(v) == [k |-> "ok", v |-> v]
FirstErr(rs) == LET S == {i \in 1..Len(rs) : rs[i].k = "err"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ListOf(rs) == IF FirstErr(rs) # 0 THEN rs[FirstErr(rs)] ELSE Yes([t |-> "l", e |-> [i \in 1..Len(rs) |-> rs[i].v]])
\* attributes are read in order, and reading ends at the first bad one
Attr(tag, q, a) ==
  IF q.bad # "" THEN q
  ELSE IF tag = "costume" /\ a.n \in {"center-x", "center-y"} THEN
    LET n == IF a.c = <<>> THEN DecParse(a.v) ELSE [t |-> "none"] IN
    IF n.t = "none" THEN [q EXCEPT !.bad = "BadImage"] ELSE IF a.n = "center-x" THEN [q EXCEPT !.x = <<n>>] ELSE [q EXCEPT !.y = <<n>>]
  ELSE IF a.n \in {"name", "x:name"} THEN [q EXCEPT !.name = a.v \o Base64(a.c)]
  ELSE IF (tag = "costume" /\ a.n = "image") \/ (tag = "sound" /\ a.n = "sound") THEN
    \* generated texts are either a proper prefix followed by base64, or have no base64 at all
    IF StartsWith(a.v, IF tag = "costume" THEN "data:image/" ELSE "data:audio/") /\ Len(a.v) >= 8 /\ SubSeq(a.v, Len(a.v) - 7, Len(a.v)) = ";base64," THEN [q EXCEPT !.c = <<a.c>>]
    ELSE [q EXCEPT !.bad = IF tag = "costume" THEN "BadImage" ELSE "BadAudio"]
  ELSE q
Markup(d) ==
  LET tag == IF StartsWith(d.tag, "x:") THEN SubSeq(d.tag, 3, Len(d.tag)) ELSE d.tag IN
  IF tag \notin {"costume", "sound"} THEN [k |-> "text"]
  ELSE LET q == FoldLeft(LAMBDA q, a: Attr(tag, q, a), [bad |-> "", x |-> <<>>, y |-> <<>>, c |-> <<>>, name |-> "untitled"], d.at) IN
    IF q.bad # "" THEN No(q.bad)
    ELSE IF d.end \notin {" />", "/>", ">", ">x</y>"} \/ q.c = <<>> THEN [k |-> "text"]
    ELSE IF tag = "sound" THEN Yes([t |-> "au", au |-> q.name, c |-> q.c[1]])
    ELSE Yes([t |-> "i", i |-> q.name, c |-> q.c[1], cx |-> IF q.x = <<>> \/ q.y = <<>> THEN <<>> ELSE q.x \o q.y])
RECURSIVE Read(_, _)
Read(d, nb) ==
  CASE d.t = "null" -> No("Null")
    [] d.t \in {"b", "n", "u", "s"} -> Yes(d)
    [] d.t = "l" -> ListOf([i \in 1..Len(d.e) |-> Read(d.e[i], nb)])
    [] d.t = "o" -> ListOf([i \in 1..Len(d.e) |-> LET r == Read(d.e[i][2], nb) IN IF r.k # "ok" THEN r ELSE Yes([t |-> "l", e |-> <<T(d.e[i][1]), r.v>>])])
    [] OTHER -> Markup(d)
RECURSIVE Eq(_, _)
Eq(v, r) ==
  CASE v.t \in {"n", "u"} -> NumOk(v, r)
    [] v.t = "l" -> r.t = "l" /\ Len(r.e) = Len(v.e) /\ \A i \in 1..Len(v.e) : Eq(v.e[i], r.e[i])
    [] v.t = "i" -> r.t = "i" /\ r.i = v.i /\ r.c = v.c /\ Len(r.cx) = Len(v.cx) /\ \A i \in 1..Len(v.cx) : NumOk(v.cx[i], r.cx[i])
    [] OTHER -> r = v
ReadOk(e, r) == e.k = r.k /\ (e.k = "ok" => Eq(e.v, r.v)) /\ (e.k = "err" => e.e = r.e)

(* runtime values: objects 1..n, lists with members; what the copy of object i is, given those it is inside of *)
RECURSIVE PlainCopy(_, _, _)
PlainCopy(g, i, inside) ==
  IF g[i].t = "native" THEN No("Native")
  ELSE IF g[i].t # "l" THEN Yes(g[i])
  ELSE IF i \in inside THEN No("Cyclic")
  ELSE LET rs == [k \in 1..Len(g[i].m) |-> PlainCopy(g, g[i].m[k], inside \cup {i})] IN ListOf(rs)

(* how an object prints ("?": not followed), and what reading it as each type gives *)
QuoteText(s) == "\"" \o FoldLeft(LAMBDA a, c: a \o (CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] OTHER -> c), "", Chars(s)) \o "\""
RECURSIVE Printed(_, _, _, _)
Printed(g, i, dbg, inside) ==
  LET v == g[i] IN
  CASE v.t = "b" -> IF v.b THEN "true" ELSE "false"
    [] v.t = "n" -> NumStr(v)
    [] v.t = "s" -> IF dbg THEN QuoteText(v.s) ELSE v.s
    [] v.t = "i" -> "[Image 0x]"
    [] v.t = "au" -> "[Audio 0x]"
    [] v.t = "native" -> "Native"
    [] OTHER -> IF i \in inside THEN "[...]"
                ELSE "[" \o FoldLeft(LAMBDA a, k: a \o (IF k > 1 THEN "," ELSE "") \o Printed(g, v.m[k], dbg, inside \cup {i}), "", [k \in 1..Len(v.m) |-> k]) \o "]"
PTypes == <<"Bool", "Number", "Text", "Image", "Audio", "List", "Closure", "Entity">>
PTypeOf(v) == CASE v.t = "b" -> "Bool" [] v.t = "n" -> "Number" [] v.t = "s" -> "Text" [] v.t = "i" -> "Image" [] v.t = "au" -> "Audio" [] v.t = "l" -> "List" [] OTHER -> "Native"
ReadAsOk(v, k, r) ==
  LET T0 == PTypeOf(v)  num == IF v.t = "s" THEN ParseNum(v.s) ELSE v  no == r = <<T0, PTypes[k]>> IN
  IF k = 2 /\ T0 \in {"Number", "Text"} THEN (IF num.t = "none" THEN no ELSE Len(r) = 1 /\ NumOk(num, r[1]))
  ELSE IF k = 3 /\ T0 = "Number" THEN r = <<T(NumStr(v))>>
  ELSE IF T0 # PTypes[k] THEN no
  ELSE Len(r) = 1 /\ (IF k = 6 THEN r[1] = Len(v.m) ELSE Eq(v, r[1]))

PlainExp(op) ==
  CASE op.o = "fromjson" -> Read(op.j, FALSE)
    [] op.o = "fromnb" -> Read(op.j, TRUE)
    [] op.o = "graph" -> PlainCopy(op.g, op.v, {})
    [] OTHER -> No("")
PlainOk(op, r) ==
  CASE op.o = "tojson" -> IF HasMedia(op.v) # "" THEN r.k = "err" /\ r.e = HasMedia(op.v) ELSE r.k = "ok" /\ JsonOk(op.v, r.j) /\ r.eq
    [] op.o = "tonb" -> NbOk(op.v, r.j) /\ r.eq /\ ReadOk(Yes(op.v), r.b)
    [] op.o \in {"fromjson", "fromnb"} -> ReadOk(PlainExp(op), r)
    [] op.o = "graph" -> LET e == PlainCopy(op.g, op.v, {}) IN ReadOk(e, r) /\ (e.k = "ok" => r.deep /\ r.again)
                          /\ r.show = Printed(op.g, op.v, FALSE, {}) /\ r.dbg = Printed(op.g, op.v, TRUE, {})
                          /\ \A k \in 1..8 : ReadAsOk(op.g[op.v], k, r["as"][k])
    [] op.o = "parse" -> LET n == ParseNum(op.s) IN IF n.t = "none" THEN r = <<>> ELSE Len(r) = 1 /\ (IF n.t = "n" THEN r[1] = n ELSE r[1].t \in {"n", "u"})
    [] OTHER -> FALSE
PlainWhy(op, r) == IF op.o = "graph" THEN ", expected " \o ToJson(PlainExp(op)) \o ", printed " \o Printed(op.g, op.v, FALSE, {}) \o " or " \o Printed(op.g, op.v, TRUE, {}) ELSE IF op.o \in {"fromjson", "fromnb", "graph"} THEN ", expected " \o ToJson(PlainExp(op)) ELSE ""
=============================================================================
