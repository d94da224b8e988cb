-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The files of a project run with --fs.                                   *)
(*                                                                         *)
(*   fs   the files: [p path, s contents, n how often it was changed, ok]  *)
(*   hs   what was opened: [k mode, p path, open, pos, buf, seen, made]    *)
(*                                                                         *)
(* What is written reaches the file when it is closed, or when the tool    *)
(* ends; in between, the specification does not say what others see (ok    *)
(* FALSE).  In contents, the character in Bad is a byte which is no text.  *)
(***************************************************************************)
EXTENDS Vals

Bad == "¤"
FilesInit(l) == [fs |-> [i \in 1..Len(l) |-> [p |-> l[i][1], s |-> l[i][2], n |-> 0, ok |-> TRUE]], hs |-> <<>>]
FileAt(F, p) == LET S == {i \in 1..Len(F.fs) : F.fs[i].p = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Pending(F, p) == {i \in 1..Len(F.hs) : F.hs[i].p = p /\ F.hs[i].open /\ F.hs[i].buf # ""}
\* paths which cannot be opened (for writing): nothing there, a directory
NoSuch == "Os { code: 2, kind: NotFound, message: \"No such file or directory\" }"
IsDir == "Os { code: 21, kind: IsADirectory, message: \"Is a directory\" }"
NoRoom == "Os { code: 28, kind: StorageFull, message: \"No space left on device\" }"
\* where nothing can be stored
Full == "/dev/full"
NotText == "Error { kind: InvalidData, message: \"stream did not contain valid UTF-8\" }"
InDir(p) == \E i \in 1..Len(p) : Ch(p, i) = "/"
\* results: <<files, "ok" / "err" / "taint", value or message>>
Fine(F, v) == <<F, "ok", v>>
Sorry(F, s) == <<F, "err", T(s)>>
Vague(F) == <<F, "taint", "unwritten">>

Open(F, p, mode) ==
  LET i == FileAt(F, p)
      h == [k |-> mode, p |-> p, open |-> TRUE, pos |-> 0, buf |-> "", seen |-> 0 - 1]
      give(G) == Fine([G EXCEPT !.hs = Append(@, h)], [t |-> "f", f |-> Len(G.hs) + 1, w |-> mode # "r"]) IN
  IF mode \notin {"r", "w", "a"} THEN Sorry(F, "syscall open - unknown mode '" \o mode \o "' expected 'r', 'w', or 'a'")
  ELSE IF p = "." THEN (IF mode = "r" THEN give(F) ELSE Sorry(F, "syscall open - file open error: " \o IsDir))
  ELSE IF p = Full THEN (IF mode = "r" THEN Vague(F) ELSE give(F))
  ELSE IF p = "" \/ InDir(p) \/ (i = 0 /\ mode = "r") THEN Sorry(F, "syscall open - file open error: " \o NoSuch)
  ELSE IF i = 0 THEN give([F EXCEPT !.fs = Append(@, [p |-> p, s |-> "", n |-> 0, ok |-> TRUE])])
  \* emptied; what others still have to write comes later
  ELSE IF mode = "w" THEN give([F EXCEPT !.fs[i] = [@ EXCEPT !.s = "", !.n = @ + 1, !.ok = Pending(F, p) = {}]])
  ELSE give(F)
\* the contents after h's pending text is written
Flush(F, hi) ==
  LET h == F.hs[hi]  i == FileAt(F, h.p)  s == IF i = 0 THEN "" ELSE F.fs[i].s
      new == s \o h.buf IN      \* written at its end, by who appends
  IF h.buf = "" \/ h.p = Full THEN F
  ELSE [F EXCEPT !.fs[i] = [@ EXCEPT !.s = new, !.n = @ + 1, !.ok = @ /\ Pending(F, h.p) = {hi} /\ (h.k = "a" \/ s = "")],
                 !.hs[hi] = [@ EXCEPT !.buf = ""]]
Close(F, hi) == IF F.hs[hi].open THEN [Flush(F, hi) EXCEPT !.hs[hi].open = FALSE] ELSE F
\* the line of s which starts after pos
Line(s, pos) == LET S == {j \in pos + 1..Len(s) : Ch(s, j) = "\n"} IN SubSeq(s, pos + 1, IF S = {} THEN Len(s) ELSE CHOOSE j \in S : \A k \in S : j <= k)
Read(F, hi) ==
  LET h == F.hs[hi]  i == FileAt(F, h.p)  f == F.fs[i] IN
  IF h.p = "." THEN Sorry(F, "syscall readLine - read error: " \o IsDir)
  ELSE IF ~f.ok \/ Pending(F, h.p) # {} \/ (h.seen >= 0 /\ h.seen # f.n) THEN Vague(F)
  ELSE LET l == Line(f.s, h.pos)
           G == [F EXCEPT !.hs[hi] = [@ EXCEPT !.pos = @ + Len(l), !.seen = f.n]] IN
    IF \E j \in 1..Len(l) : Ch(l, j) = Bad THEN Sorry(G, "syscall readLine - read error: " \o NotText) ELSE Fine(G, T(l))

Gone(op) == "syscall " \o op \o " - this file has been closed"
Count(op, want, n) == "syscall " \o op \o " - expected " \o want \o ", received " \o IntStr(n)
\* the operations which are the files'; nm: names of the sprites
FileOps == {"open", "close", "readLine", "writeLine"}
FileOp(F, h, nm, op, a) ==
  CASE op = "open" ->
         (IF Len(a) # 2 THEN Sorry(F, Count(op, "2 args", Len(a)))
          ELSE LET p == ToText(a[1])  md == ToText(a[2]) IN
            IF p[1] # 0 \/ md[1] # 0 THEN Sorry(F, "syscall open - expected 2 string args, received " \o TypeName(a[1]) \o " and " \o TypeName(a[2]))
            ELSE IF p[2].t # "s" \/ md[2].t # "s" THEN Vague(F) ELSE Open(F, p[2].s, md[2].s))
    [] op = "close" ->
         (IF Len(a) # 1 THEN Sorry(F, Count(op, "1 arg", Len(a)))
          ELSE IF a[1].t # "f" THEN Sorry(F, "syscall close - expected type InputFile or OutputFile, received type " \o TypeName(a[1]))
          ELSE LET G == Close(F, a[1].f) IN
            IF F.hs[a[1].f].p = Full /\ F.hs[a[1].f].buf # "" /\ F.hs[a[1].f].open THEN Sorry(G, "syscall close - write error: " \o NoRoom) ELSE Fine(G, T("OK")))
    [] op = "readLine" ->
         (IF Len(a) # 1 THEN Sorry(F, Count(op, "1 arg", Len(a)))
          ELSE IF a[1].t # "f" \/ a[1].w THEN Sorry(F, "syscall readLine - expected type InputFile, received type " \o TypeName(a[1]))
          ELSE IF ~F.hs[a[1].f].open THEN Sorry(F, Gone(op)) ELSE Read(F, a[1].f))
    [] OTHER ->
         (IF Len(a) # 2 THEN Sorry(F, Count(op, "2 args", Len(a)))
          ELSE IF a[1].t # "f" \/ ~a[1].w THEN Sorry(F, "syscall writeLine - expected types OutputFile and Text. received types " \o TypeName(a[1]) \o " and " \o TypeName(a[2]))
          ELSE IF ~F.hs[a[1].f].open THEN Sorry(F, Gone(op))
          ELSE LET t == Fmt(h, nm, a[2], FALSE, {}) IN IF ~t[1] \/ Len(F.hs[a[1].f].buf) > 2000 THEN Vague(F) ELSE Fine([F EXCEPT !.hs[a[1].f].buf = @ \o t[2] \o "\n"], T("OK")))
\* the files when the tool has ended: everything is written
Ended(F) == FoldLeft(LAMBDA G, i: IF G.hs[i].open THEN Flush(G, i) ELSE G, F, Range0(Len(F.hs)))
\* when it was stopped dead, what was still to be written may be there or not
Stopped(F) == [F EXCEPT !.fs = [i \in 1..Len(F.fs) |-> [F.fs[i] EXCEPT !.ok = @ /\ Pending(F, F.fs[i].p) = {}]]]
FilesDiff(F, l) ==
  LET S == {i \in 1..Len(F.fs) : ~\E j \in 1..Len(l) : l[j][1] = F.fs[i].p /\ (l[j][2] = F.fs[i].s \/ ~F.fs[i].ok)} IN
  IF Len(l) # Len(F.fs) THEN "files: expected " \o ToJson([i \in 1..Len(F.fs) |-> F.fs[i].p]) \o " got " \o ToJson(l)
  ELSE IF S # {} THEN LET i == CHOOSE i \in S : TRUE IN "file: expected " \o ToJson(F.fs[i]) \o " got " \o ToJson(l)
  ELSE ""
=============================================================================
