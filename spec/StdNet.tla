------------------------------- MODULE StdNet --------------------------------
(***************************************************************************)
(* The standard system: its connection to the server, waits for replies    *)
(* with their timeout, and service calls.  Frames from the server are in   *)
(* flight until the client has handled them, which it does in order, at    *)
(* any time; a recorded result decides how many it must have handled, and  *)
(* a sync (a ping answered) says it has handled all of them.               *)
(***************************************************************************)
LOCAL INSTANCE Vals
LOCAL INSTANCE Plain
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

NT(x) == [t |-> "s", s |-> x]
Timeout == 1500
Self == "my proj@CID#vm"

(* JSON documents up to the order of members; of a repeated member, the last counts *)
RECURSIVE NetNorm(_)
NetNorm(d) ==
  CASE d.t = "o" -> [t |-> "o", e |-> {<<d.e[i][1], NetNorm(d.e[i][2])>> : i \in {i \in 1..Len(d.e) : \A j \in (i + 1)..Len(d.e) : d.e[j][1] # d.e[i][1]}}]
    [] d.t = "l" -> [t |-> "l", e |-> [i \in 1..Len(d.e) |-> NetNorm(d.e[i])]]
    [] OTHER -> d
Member(d, k) == LET S == {i \in 1..Len(d.e) : d.e[i][1] = k} IN IF S = {} THEN <<>> ELSE <<d.e[CHOOSE i \in S : \A j \in S : j <= i][2]>>
IsT(x, t) == Len(x) = 1 /\ x[1].t = t
TextOf(x) == IF x.t = "rid" THEN "rid " \o IntStr(x.n) ELSE x.s

\* members in the order of their names, as JSON objects are read
RECURSIVE SortDoc(_)
SortDoc(d) ==
  CASE d.t = "l" -> [d EXCEPT !.e = [i \in 1..Len(d.e) |-> SortDoc(d.e[i])]]
    [] d.t = "o" ->
      LET keep == SelectSeq([i \in 1..Len(d.e) |-> i], LAMBDA i: \A j \in (i + 1)..Len(d.e) : d.e[j][1] # d.e[i][1])
          ms == SortSeq([i \in 1..Len(keep) |-> <<d.e[keep[i]][1], SortDoc(d.e[keep[i]][2])>>], LAMBDA x, y: CmpStr(x[1], y[1]) = "lt")
      IN [d EXCEPT !.e = ms]
    [] OTHER -> d

(* now: milliseconds; cache: the reading held by the clock, and p its precision; w: waits; wire: frames in flight; in: messages to be received; out: what was sent since last looked at *)
NetInit(p) == [now |-> 0, cache |-> 0, p |-> p, w |-> <<>>, wire |-> <<>>, in |-> <<>>, out |-> <<>>]
Reading(s, precision) == IF s.p # 0 /\ precision <= s.p THEN s.cache ELSE s.now
AfterReading(s, precision) == IF s.p # 0 /\ precision <= s.p THEN s ELSE [s EXCEPT !.cache = s.now]

(* handling the oldest frame in flight *)
Fields(content) ==
  \* the members which denote values; others are left out
  LET idx == {i \in 1..Len(content.e) : \A j \in (i + 1)..Len(content.e) : content.e[j][1] # content.e[i][1]}
      read(i) == Read(SortDoc(content.e[i][2]), TRUE)
  \* markup which is not a picture or sound is text like any other
  IN {<<content.e[i][1], IF read(i).k = "ok" THEN read(i).v ELSE [t |-> "markup"]>> : i \in {i \in idx : read(i).k # "err"}}
Handle(s, f, issued) ==
  LET t == Member(f, "type") mt == Member(f, "msgType") co == Member(f, "content") req == Member(f, "requestId") src == Member(f, "srcId") IN
  IF f.t # "o" \/ ~IsT(t, "s") \/ TextOf(t[1]) # "message" THEN s
  ELSE IF ~IsT(mt, "s") \/ ~IsT(co, "o") THEN s
  ELSE IF TextOf(mt[1]) = "__reply__" THEN
    LET b == Member(co[1], "body") IN
    IF b = <<>> \/ ~IsT(req, "rid") THEN s          \* only request ids this client issued correlate with anything
    ELSE LET n == req[1].n IN IF n > issued THEN s ELSE IF s.w[n].open /\ s.w[n].val = <<>> THEN [s EXCEPT !.w[n].val = b] ELSE s
  ELSE IF req # <<>> /\ ~((IsT(req, "s") \/ IsT(req, "rid")) /\ IsT(src, "s")) THEN s
  ELSE [s EXCEPT !.in = Append(@, [type |-> TextOf(mt[1]), v |-> Fields(co[1]), rk |-> IF req = <<>> THEN <<>> ELSE <<TextOf(src[1]), TextOf(req[1])>>])]
Deliver(s) == Handle([s EXCEPT !.wire = Tail(@)], s.wire[1].d, s.wire[1].issued)
RECURSIVE DeliverAll(_)
DeliverAll(s) == IF s.wire = <<>> THEN s ELSE DeliverAll(Deliver(s))
RECURSIVE UntilMessage(_)
UntilMessage(s) == IF s.in # <<>> \/ s.wire = <<>> THEN s ELSE UntilMessage(Deliver(s))
RECURSIVE UntilReply(_, _)
UntilReply(s, n) == IF s.w[n].val # <<>> \/ s.wire = <<>> THEN s ELSE UntilReply(Deliver(s), n)

(* outgoing frames *)
Obj(m) == [t |-> "o", e |-> m]
Msg(op) ==
  <<<<"type", NT("message")>>, <<"dstId", [t |-> "l", e |-> [i \in 1..Len(op.to) |-> NT(IF op.to[i] = "everyone in room" THEN Self ELSE op.to[i])]]>>, <<"srcId", NT(Self)>>,
    <<"msgType", NT(op.type)>>, <<"content", Obj(op.v)>>>>
Reply(op) == <<<<"type", NT("message")>>, <<"dstId", NT(op.src)>>, <<"msgType", NT("__reply__")>>, <<"requestId", NT(op.req)>>, <<"content", Obj(<<<<"body", op.v>>>>)>>>>

(* service calls made by scripts, one after the other in each script *)
Denote(x) ==
  LET ty(p) == Len(x.ctype) = 1 /\ Len(SplitOn(JoinStr([i \in 1..Len(x.ctype[1]) |-> LowerAscii(Ch(x.ctype[1], i))]), p)) > 1
      media == IF ty("image/") THEN "i" ELSE IF ty("audio/") THEN "au" ELSE ""
      value == Read(SortDoc(x.doc[1]), TRUE) IN
  IF x.cut THEN No("Failed to read response body")
  ELSE IF x.status \notin 200..299 THEN No(IF x.txt = <<>> THEN "Received ill-formed error message" ELSE x.txt[1])
  ELSE IF media = "i" THEN Yes([t |-> "i", i |-> "untitled", c |-> x.body, cx |-> <<>>])
  ELSE IF media = "au" THEN Yes([t |-> "au", au |-> "untitled", c |-> x.body])
  ELSE IF x.doc # <<>> THEN (IF value.k = "ok" THEN value ELSE IF value.k = "text" THEN Yes([t |-> "markup"]) ELSE No("Received ill-formed success value: " \o value.e))
  ELSE IF x.txt = <<>> THEN No("Received ill-formed success value") ELSE Yes(NT(x.txt[1]))
Inside(c) == c.svc = "Hooked" \/ (c.svc = "PublicRoles" /\ c.rpc = "getPublicRoleId" /\ c.args = <<>>)
Sent(c) == ~Inside(c) /\ ~c.bad /\ c.host # "dead"
Answer(op, c) ==
  IF c.svc = "Hooked" THEN Yes(NT("hook:" \o c.rpc))
  ELSE IF Inside(c) THEN Yes(NT(Self))
  ELSE IF c.bad THEN No("~failed to convert RPC args to json")
  ELSE IF c.host = "dead" THEN No("Failed to reach BASE")
  ELSE Denote(op.order[CHOOSE i \in 1..Len(op.order) : op.order[i].rpc = c.rpc])
TextIs(e, v) == v.t = "s" /\ (IF StartsWith(e, "~") THEN StartsWith(v.s, SubSeq(e, 2, Len(e))) ELSE v.s = e)
NetSame(e, v) == IF e.t = "markup" THEN v.t = "s" ELSE Eq(e, v)
PrintOk(op, c, v) ==
  LET a == Answer(op, c) IN
  /\ v.t = "l" /\ v.e[1] = [t |-> "n", n |-> c.n, k |-> 0]
  /\ IF op.soft THEN Len(v.e) = 3 /\ (IF a.k = "ok" THEN NetSame(a.v, v.e[2]) /\ v.e[3] = NT("") ELSE TextIs(a.e, v.e[2]) /\ TextIs(a.e, v.e[3]))
     ELSE IF a.k = "ok" THEN Len(v.e) = 2 /\ NetSame(a.v, v.e[2]) ELSE Len(v.e) = 1
BodyOk(args, b) == b.t = "o" /\ Len(b.e) = Len(args) /\ \A i \in 1..Len(args) : \E j \in 1..Len(b.e) : b.e[j][1] = args[i][1] /\ NbOk(args[i][2], b.e[j][2])
CallOk(c, x) == x[1] = "/" \o (IF c.host = "" THEN "svc" ELSE "alt") \o "/" \o c.svc \o "/" \o c.rpc /\ x[3] /\ BodyOk(c.args, x[2])
ProgBad(op, r) ==
  LET all == FoldLeft(LAMBDA a, q: a \o q, <<>>, op.scripts)
      sent == SelectSeq(all, LAMBDA c: Sent(c))
      of(k) == SelectSeq(r.prints, LAMBDA v: v.t = "l" /\ Len(v.e) > 0 /\ v.e[1].t = "n" /\ v.e[1].n \div 100 = k)
      wrong == {<<k, j>> \in (1..Len(op.scripts)) \X (1..20) : j <= Len(op.scripts[k]) /\ ~(j <= Len(of(k)) /\ PrintOk(op, op.scripts[k][j], of(k)[j]))} IN
  IF r.errs # <<>> THEN "no error is due"
  ELSE IF Len(r.calls) # Len(sent) \/ r.unused # 0 THEN "expected " \o IntStr(Len(sent)) \o " calls to reach the server"
  ELSE IF \E i \in 1..Len(sent) : ~\E j \in 1..Len(r.calls) : CallOk(sent[i], r.calls[j]) THEN "expected the calls " \o ToJson(sent)
  ELSE IF wrong # {} THEN LET z == CHOOSE z \in wrong : TRUE IN "call " \o ToJson(op.scripts[z[1]][z[2]]) \o " should give " \o ToJson(Answer(op, op.scripts[z[1]][z[2]]))
  ELSE IF Len(r.prints) # Len(all) THEN "expected one print for each call" ELSE ""

(* r: what was recorded.  Gives the next state, or why the record cannot be right. *)
Good(s) == [ok |-> TRUE, s |-> s, why |-> ""]
Bad(e) == [ok |-> FALSE, why |-> e]
Is(s, r, e) == IF r = e THEN Good(s) ELSE Bad("expected " \o ToJson(e))
MessageOk(m, r) == r.type = m.type /\ r.rk = m.rk /\ Len(r.v) = Cardinality(m.v) /\ \A kv \in m.v : \E i \in 1..Len(r.v) : r.v[i][1] = kv[1] /\ IF kv[2].t = "markup" THEN r.v[i][2].t = "s" ELSE Eq(kv[2], r.v[i][2])
Framed(f) == IF f.t = "o" THEN NetNorm(f) ELSE f
NetStep(s, op, r) ==
  CASE op.o = "send" ->
      LET n == IF op.w THEN Len(s.w) + 1 ELSE 0
          m == IF op.w THEN Append(Msg(op), <<"requestId", [t |-> "rid", n |-> n]>>) ELSE Msg(op)
          s2 == IF op.w THEN [AfterReading(s, 2) EXCEPT !.w = Append(@, [exp |-> Reading(s, 2) + Timeout, val |-> <<>>, open |-> TRUE])] ELSE s
      IN Is([s2 EXCEPT !.out = Append(@, Obj(m))], r, n)
    [] op.o = "reply" -> Is([s EXCEPT !.out = Append(@, Obj(Reply(op)))], r, TRUE)
    [] op.o = "inject" -> Good([s EXCEPT !.in = Append(@, [type |-> op.type, v |-> {<<op.v[i][1], op.v[i][2]>> : i \in 1..Len(op.v)}, rk |-> <<>>])])
    [] op.o = "srv" -> Good(IF op.f = "doc" THEN [s EXCEPT !.wire = Append(@, [d |-> op.d, issued |-> Len(s.w)])] ELSE s)
    [] op.o = "srvs" -> Is(DeliverAll([s EXCEPT !.wire = Append(@, [d |-> op.d, issued |-> Len(s.w)])]), r, "pong")
    [] op.o = "recv" ->
      IF r = <<>> THEN (IF s.in = <<>> THEN Good(s) ELSE Bad("expected a message: " \o ToJson(s.in[1])))
      ELSE LET u == UntilMessage(s) IN
        IF u.in = <<>> THEN Bad("no message is due")
        ELSE IF MessageOk(u.in[1], r[1]) THEN Good([u EXCEPT !.in = Tail(@)]) ELSE Bad("expected " \o ToJson(u.in[1]))
    [] op.o = "poll" ->
      LET n == op.k w == s.w[n] late == Reading(s, 1) > w.exp IN
      IF ~w.open THEN Is(s, r, <<"consumed">>)
      ELSE IF r = <<"pending">> THEN (IF w.val # <<>> THEN Bad("the reply has arrived") ELSE IF late THEN Bad("the timeout has passed") ELSE Good(s))
      ELSE IF r = <<"none">> THEN (IF w.val # <<>> THEN Bad("the reply has arrived") ELSE IF ~late THEN Bad("the timeout has not passed") ELSE Good([s EXCEPT !.w[n].open = FALSE]))
      ELSE IF r[1] = "value" THEN
        LET u == UntilReply(s, n) IN
        IF u.w[n].val = <<>> THEN Bad("there is no reply to this message")
        ELSE IF NetNorm(u.w[n].val[1]) = NetNorm(r[2]) THEN Good([u EXCEPT !.w[n].open = FALSE]) ELSE Bad("expected " \o ToJson(u.w[n].val[1]))
      ELSE Bad("")
    [] op.o = "sync" -> Is(DeliverAll(s), r, "pong")
    [] op.o = "flush" ->
      IF Len(r) # Len(s.out) THEN Bad("expected " \o ToJson(s.out))
      ELSE IF \E i \in 1..Len(r) : Framed(r[i]) # NetNorm(s.out[i]) THEN Bad("expected " \o ToJson(s.out)) ELSE Good([s EXCEPT !.out = <<>>])
    [] op.o = "tick" -> Good([s EXCEPT !.now = @ + op.ms])
    [] op.o = "update" -> Good([s EXCEPT !.cache = s.now])
    [] op.o = "boot" ->
      IF r.id # Self THEN Bad("expected " \o Self)
      ELSE IF NetNorm(r.first) # NetNorm(Obj(<<<<"type", NT("set-uuid")>>, <<"clientId", NT("CID")>>>>)) THEN Bad("expected set-uuid")
      ELSE IF [i \in 1..Len(r.log) |-> r.log[i][1]] # <<"GET /configuration", "GET /network/CID/connect", "POST /projects/", "POST /network/CID/state">> THEN Bad("expected the four requests of a start") ELSE Good(s)
    [] op.o = "prog" -> LET e == ProgBad(op, r) IN IF e = "" THEN Good(s) ELSE Bad(e)
    [] OTHER -> Bad("?")

(* Short histories in which every frame is handled before the next operation: what each operation gives is then certain. *)
Num(n) == [t |-> "n", n |-> n, k |-> 0]
ReplyFrame(n, v) == Obj(<<<<"type", NT("message")>>, <<"msgType", NT("__reply__")>>, <<"requestId", [t |-> "rid", n |-> n]>>, <<"content", Obj(<<<<"body", Num(v)>>>>)>>>>)
MsgFrame(rk) == Obj(<<<<"type", NT("message")>>, <<"msgType", NT("hi")>>, <<"content", Obj(<<<<"a", Num(7)>>>>)>>>> \o IF rk THEN <<<<"requestId", NT("q")>>, <<"srcId", NT("z")>>>> ELSE <<>>)
NetOps(s) ==
  (IF Len(s.w) < 2 THEN {[o |-> "send", type |-> "t", v |-> <<>>, to |-> <<"x">>, w |-> TRUE]} ELSE {})
  \cup {[o |-> "poll", k |-> k] : k \in 1..Len(s.w)}
  \cup {[o |-> "srvs", f |-> "doc", d |-> ReplyFrame(n, v)] : n \in 1..Len(s.w), v \in {1, 2}}
  \cup {[o |-> "srvs", f |-> "doc", d |-> MsgFrame(rk)] : rk \in BOOLEAN} \cup {[o |-> "recv"], [o |-> "tick", ms |-> 751]} \cup (IF s.p = 0 THEN {} ELSE {[o |-> "update"]})
NetResult(s, op) ==
  CASE op.o = "send" -> Len(s.w) + 1
    [] op.o = "poll" -> LET w == s.w[op.k] IN
         IF ~w.open THEN <<"consumed">> ELSE IF w.val # <<>> THEN <<"value", w.val[1]>> ELSE IF Reading(s, 1) > w.exp THEN <<"none">> ELSE <<"pending">>
    [] op.o = "srvs" -> "pong"
    [] op.o = "recv" -> IF s.in = <<>> THEN <<>> ELSE <<[type |-> s.in[1].type, v |-> SetToSeq(s.in[1].v), rk |-> s.in[1].rk]>>
    [] OTHER -> 0
NetApply(s, op) == LET r == NetResult(s, op) IN [s |-> NetStep(s, op, r).s, r |-> r]
\* what a wait came to does not change; it ends with its first reply, or after its timeout, and not before
NetTheorem(s, op, t) ==
  /\ NetStep(s, op, NetResult(s, op)).ok
  /\ \A n \in 1..Len(s.w) :
       /\ s.w[n].val # <<>> => t.w[n].val = s.w[n].val
       /\ ~s.w[n].open => t.w[n] = s.w[n]
       /\ (s.w[n].open /\ ~t.w[n].open) => op.o = "poll" /\ (s.w[n].val # <<>> \/ s.now - (s.w[n].exp - Timeout) > Timeout)
  /\ Len(t.in) >= Len(s.in) - 1 /\ (op.o # "recv" => SubSeq(t.in, 1, Len(s.in)) = s.in) /\ (op.o = "recv" /\ s.in # <<>> => t.in = Tail(s.in))
=============================================================================
