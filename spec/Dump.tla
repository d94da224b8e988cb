--------------------------------- MODULE Dump ---------------------------------
(***************************************************************************)
(* What the command-line tool's dump of a project says: every byte of the   *)
(* compiled code, instruction by instruction, each with its address, every  *)
(* byte of its data, and the size of both.  r.ref is the compiled project,  *)
(* as the library hands it out: its code, its data, where scripts begin.    *)
(***************************************************************************)
EXTENDS Base
PerLine == 10
HexDigits == "0123456789abcdef"
HexByte(b) == SubSeq(HexDigits, b \div 16 + 1, b \div 16 + 1) \o SubSeq(HexDigits, (b % 16) + 1, (b % 16) + 1)
Printable == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
ShownByte(b) == IF b >= 33 /\ b <= 126 THEN SubSeq(Printable, b - 32, b - 32) ELSE "."
RECURSIVE ShownBytes(_)
ShownBytes(bs) == IF bs = <<>> THEN "" ELSE ShownByte(bs[1]) \o ShownBytes(Tail(bs))
\* rows show the bytes from n on
RowBytes(row, bytes, n) == Len(row.b) \in 1..PerLine /\ n + Len(row.b) <= Len(bytes) /\ \A i \in 1..Len(row.b) : row.b[i] = HexByte(bytes[n + i])
CodeRow(a, row, code) ==
  IF a.why # "" THEN a
  ELSE IF ~RowBytes(row, code, a.n) THEN [a EXCEPT !.why = "the bytes from " \o IntStr(a.n) \o " are shown as " \o ToJson(row.b)]
  ELSE IF row.pos >= 0 /\ (row.pos # a.n \/ row.text = "") THEN [a EXCEPT !.why = "the instruction at " \o IntStr(a.n) \o " is shown at " \o IntStr(row.pos)]
  ELSE IF row.pos < 0 /\ (a.last # PerLine \/ row.text # "") THEN [a EXCEPT !.why = "no address at " \o IntStr(a.n)]
  ELSE [n |-> a.n + Len(row.b), last |-> Len(row.b), why |-> ""]
CodeWhy(rows, code) == LET z == FoldLeft(LAMBDA a, row: CodeRow(a, row, code), [n |-> 0, last |-> 0, why |-> ""], rows) IN IF z.why = "" /\ z.n # Len(code) THEN "code ends at " \o IntStr(z.n) \o " of " \o IntStr(Len(code)) ELSE z.why
DataRow(i, row, data) ==
  LET n == (i - 1) * PerLine IN row.pos = n /\ RowBytes(row, data, n) /\ (Len(row.b) = PerLine \/ n + Len(row.b) = Len(data)) /\ row.text = ShownBytes(SubSeq(data, n + 1, n + Len(row.b)))
DataWhy(rows, data) ==
  LET bad == {i \in 1..Len(rows) : ~DataRow(i, rows[i], data)} IN
  IF bad # {} THEN "row " \o IntStr(CHOOSE i \in bad : \A j \in bad : i <= j) \o " of the data" ELSE IF Len(rows) # (Len(data) + PerLine - 1) \div PerLine THEN "the data is not complete" ELSE ""
\* which role it is, or why there is none
RoleOf(op) == IF op.role = <<>> THEN (IF Len(op.roles) = 1 THEN 1 ELSE 0) ELSE LET S == {i \in 1..Len(op.roles) : op.roles[i] = op.role[1]} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Starts(s, h) == Len(s) >= Len(h) /\ SubSeq(s, 1, Len(h)) = h
Refusal(op) == \* <<status, what the complaint begins with>>
  IF ~op.file THEN <<1, "failed to read file ">>
  ELSE IF op.bad = "read" THEN <<2, "failed to parse project: ">>
  ELSE IF RoleOf(op) = 0 /\ op.role # <<>> THEN <<2, "no role named '" \o op.role[1] \o "'">>
  ELSE IF RoleOf(op) = 0 THEN <<2, "project had multiple (" \o IntStr(Len(op.roles)) \o ") roles, but a specific role was not specified">>
  ELSE IF op.bad = "compile" THEN <<2, "">>
  ELSE <<0, "">>
DumpDiff(op, r) ==
  LET x == Refusal(op) IN
  IF r.st # x[1] THEN "status " \o IntStr(r.st) \o " instead of " \o IntStr(x[1]) \o ": " \o r.err
  ELSE IF x[1] # 0 THEN (IF r.err # "" /\ Starts(r.err, x[2]) /\ r.nothing THEN "" ELSE "complaint " \o r.err \o " instead of " \o x[2])
  ELSE IF r.form # "" THEN r.form
  ELSE IF ~r.ref.ok THEN "the library does not compile it"
  ELSE LET c == CodeWhy(r.code, r.ref.code)  d == DataWhy(r.data, r.ref.data)
           lost == {p \in {r.ref.at[i] : i \in 1..Len(r.ref.at)} : \A i \in 1..Len(r.code) : r.code[i].pos # p} IN
       IF c # "" THEN c ELSE IF d # "" THEN d
       ELSE IF r.total # Len(r.ref.code) + Len(r.ref.data) THEN "total size " \o IntStr(r.total)
       ELSE IF lost # {} THEN "no instruction where a script begins: " \o ToJson(lost)
       ELSE ""
=============================================================================
