-------------------------------- MODULE Client --------------------------------
(***************************************************************************)
(* The extension for the NetsBlox editor: what the editor's user sees of an *)
(* execution server.  A client asks for what is new at every interval while *)
(* its terminal is open and no answer is pending, appends output to the     *)
(* terminal, hangs each error on the blocks its trace names, and sends what *)
(* the buttons say.                                                         *)
(*   t  time passed        boot  the server's project is still to be asked  *)
(*   get, post, pull  requests not answered       made, upd  the terminal   *)
(*   text  what it shows   notes  block -> <<comment, error>>   fam  errors *)
(***************************************************************************)
EXTENDS Base
ClientInit == [t |-> 0, boot |-> TRUE, get |-> 0, post |-> 0, pull |-> FALSE, made |-> FALSE, upd |-> FALSE, text |-> "", icon |-> "", notes |-> <<>>, fam |-> 0]
MostText == 1048576
BootMs == 500
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o CatAll(Tail(ss))
RECURSIVE MenuParts(_)
MenuPart(e) == IF e.k = "p" THEN <<"e\t" \o e.l \o "\t" \o e.l>> ELSE IF e.k = "e" THEN <<"e\t" \o e.l \o "\t" \o e.v>> ELSE <<"s\t" \o e.l>> \o MenuParts(e.sub) \o <<"end">>
MenuParts(es) == IF es = <<>> THEN <<>> ELSE MenuPart(es[1]) \o MenuParts(Tail(es))
ItsBlocks == "nativeRunSyscall nativeCallSyscall nativeSyscallError"
Parts(c) == <<"nativeRunSyscall command fails", "nativeCallSyscall reporter fails", "nativeSyscallError reporter fails", "sprite: " \o ItsBlocks, "stage: " \o ItsBlocks, "%syscall">> \o MenuParts(c.menu)
\* the document without the elements to leave out, wherever they are
RECURSIVE Written(_, _)
Written(x, omit) ==
  IF x.n = "" THEN x.s
  ELSE IF \E i \in 1..Len(omit) : omit[i] = x.n THEN ""
  ELSE "<" \o x.n \o ">" \o CatAll([i \in 1..Len(x.c) |-> Written(x.c[i], omit)]) \o "</" \o x.n \o ">"

VarLines(vs) == IF vs = <<>> THEN "" ELSE CatAll([i \in 1..Len(vs) |-> (IF i = 1 THEN "" ELSE "\n") \o vs[i].name \o " = " \o vs[i].value])
Comment(err, locals) == CatAll(<<err.cause>> \o [i \in 1..3 |-> LET x == VarLines(<<locals, err.fields, err.globals>>[i]) IN IF x = "" THEN "" ELSE "\n\n" \o x])
\* a comment takes the place of the block's older one, and with it all comments of that older error go
NoteOn(c, err, fam, notes, entry) ==
  LET us == {u \in 1..Len(c.ids) : entry.location # "" /\ c.ids[u] = entry.location}
      old == {notes[u][2] : u \in us \cap DOMAIN notes} \ {fam}
      kept == {u \in DOMAIN notes : notes[u][2] \notin old} IN
  [u \in kept \cup us |-> IF u \in us THEN <<Comment(err, entry.locals), fam>> ELSE notes[u]]
NoteError(c, s, err) ==
  [s EXCEPT !.fam = @ + 1, !.notes = FoldLeft(LAMBDA n, e: NoteOn(c, err, s.fam + 1, n, e), @, err.trace)]
Told(c, s, op) ==
  LET full == s.text \o op.output
      s1 == [s EXCEPT !.icon = IF op.running THEN "pause" ELSE "pointRight", !.text = IF Len(full) > MostText THEN SubSeq(full, Len(full) - MostText + 1, Len(full)) ELSE full] IN
  FoldLeft(LAMBDA a, e: NoteError(c, a, e), s1, op.errors)

Quiet == [req |-> <<>>, alert |-> 0, drop |-> <<>>, open |-> <<>>, parts |-> <<>>]
Does(c, s, op) == \* <<new state, what happens>>
  CASE op.o = "load" -> <<s, [Quiet EXCEPT !.parts = Parts(c)]>>
    [] op.o = "open" -> <<[s EXCEPT !.made = TRUE, !.upd = TRUE], Quiet>>
    [] op.o = "wait" ->
         LET end == s.t + op.n * c.ms
             b == s.boot /\ end >= BootMs
             p == s.made /\ s.upd /\ ~s.pull
             get == IF b THEN <<"GET " \o c.server \o "/project ">> ELSE <<>>
             pull == IF p THEN <<"POST " \o c.server \o "/pull ">> ELSE <<>> IN
         <<[s EXCEPT !.t = end, !.boot = @ /\ ~b, !.get = IF b THEN @ + 1 ELSE @, !.pull = @ \/ p], [Quiet EXCEPT !.req = IF s.t + c.ms < BootMs THEN pull \o get ELSE get \o pull]>>
    \* the user takes a comment away: those of its error go with it
    [] op.o = "dismiss" -> <<IF op.n \in DOMAIN s.notes THEN [s EXCEPT !.notes = [u \in {v \in DOMAIN @ : @[v][2] # @[op.n][2]} |-> @[u]]] ELSE s, Quiet>>
    [] op.o = "press" ->
         LET post(url, body) == <<[s EXCEPT !.post = @ + 1], [Quiet EXCEPT !.req = <<"POST " \o c.server \o url \o " " \o body>>]>> IN
         (CASE op.b = "Upload" -> post("/project", Written(c.tree, c.omit))
           [] op.b = "Download" -> <<s, [Quiet EXCEPT !.open = <<c.server \o "/project">>]>>
           [] op.b = "flag" -> post("/input", "start")
           [] op.b = "octagon" -> post("/input", "stop")
           [] op.b = "$" -> post("/toggle-paused", "")
           [] op.b = "Clear" -> <<[s EXCEPT !.text = ""], Quiet>>
           [] op.b = "Close" -> <<[s EXCEPT !.upd = FALSE], Quiet>>)
    [] op.o = "answer" ->
         (CASE op.k = "get" /\ s.get > 0 -> <<[s EXCEPT !.get = @ - 1], IF op.st = 200 THEN [Quiet EXCEPT !.drop = <<op.text>>] ELSE [Quiet EXCEPT !.alert = 1]>>
           [] op.k = "post" /\ s.post > 0 -> <<[s EXCEPT !.post = @ - 1], IF op.st = 200 THEN Quiet ELSE [Quiet EXCEPT !.alert = 1]>>
           [] op.k = "pull" /\ s.pull -> <<[(IF op.st = 200 THEN Told(c, s, op) ELSE s) EXCEPT !.pull = FALSE], Quiet>>
           [] OTHER -> <<s, Quiet>>)
Seen(s) ==
  LET n == Len(s.text)
      us == SetToSeq(DOMAIN s.notes)
      sorted == SortSeq(us, LAMBDA a, b: a < b) IN
  [text |-> IF n <= 5000 THEN s.text ELSE SubSeq(s.text, 1, 60) \o "..." \o SubSeq(s.text, n - 59, n), len |-> n, icon |-> s.icon, notes |-> [i \in 1..Len(sorted) |-> <<sorted[i], s.notes[sorted[i]][1]>>]]
ClientApply(c, s, op) == LET d == Does(c, s, op) IN [s |-> d[1], r |-> d[2] @@ Seen(d[1])]

\* exploration: the operations a case offers
ClientOps(c, s, n) ==
  IF n = 0 THEN {c.ops[1]}
  ELSE {op \in {c.alpha[i] : i \in 1..Len(c.alpha)} :
          CASE op.o = "press" -> s.made
            [] op.o = "dismiss" -> op.n \in DOMAIN s.notes
            [] op.o = "answer" -> (op.k = "pull" /\ s.pull) \/ (op.k = "get" /\ s.get > 0) \/ (op.k = "post" /\ s.post > 0)
            [] op.o = "open" -> ~s.made \/ ~s.upd
            [] OTHER -> TRUE}
\* it asks only while its terminal is open and it has the last answer; it says no more than it was told, and forgets only from the front
OneQuestion(s, op, t) == (t.pull /\ ~s.pull => op.o = "wait" /\ s.made /\ s.upd) /\ (s.pull /\ ~t.pull => op.o = "answer" /\ op.k = "pull")
\* the last error is on every block it names, and the comments of an older one are all there or all gone
LastShown(c, op, t) ==
  op.o = "answer" /\ op.k = "pull" /\ op.st = 200 /\ Len(op.errors) > 0 =>
    LET e == op.errors[Len(op.errors)] IN
    \A i \in 1..Len(e.trace), u \in 1..Len(c.ids) : e.trace[i].location # "" /\ c.ids[u] = e.trace[i].location => u \in DOMAIN t.notes /\ t.notes[u] = <<Comment(e, e.trace[i].locals), t.fam>>
AllOrNone(s, t) ==
  \A f \in {s.notes[u][2] : u \in DOMAIN s.notes} :
    LET was == {u \in DOMAIN s.notes : s.notes[u][2] = f}
        is == {u \in DOMAIN t.notes : t.notes[u][2] = f} IN
    is = {} \/ (is = was /\ \A u \in is : t.notes[u] = s.notes[u])
ClientStep(c, s, op, t) == OneQuestion(s, op, t) /\ LastShown(c, op, t) /\ AllOrNone(s, t) /\ Len(t.text) <= MostText /\ t.t >= s.t
=============================================================================
