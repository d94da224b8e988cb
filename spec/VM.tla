-------------------------------- MODULE VM --------------------------------
(***************************************************************************)
(* The block interpreter: one Step(m) performs one small step of the       *)
(* running script instance of the machine m.                               *)
(*                                                                         *)
(* A case (Cases[m.cid]) holds the project: a flat table of blocks         *)
(* (nodes), the sprites, and the scripted environment.  The machine walks  *)
(* that tree directly; it knows nothing about byte code.                   *)
(*                                                                         *)
(* Control state of the running instance (all lists are <<head, tail>>):   *)
(*   todo  what is left to do in this call                                 *)
(*   vals  operands computed so far                                        *)
(*   loc   local name -> cell        (V[cell] is the value: sharing a cell *)
(*                                    is aliasing)                         *)
(*   fr    suspended callers, hs  installed error handlers, warp  depth    *)
(*   x     message, reply key, answer, last errors, pending host operation *)
(***************************************************************************)
EXTENDS Files
Cases == TLCGet(1)   \* the cases being run: the checker puts them in this register

Case(m) == Cases[m.cid]
Env(m) == Case(m).env
Nd(m, n) == Case(m).nodes[n]

(***************************************************************************)
(* Classes of blocks                                                       *)
(***************************************************************************)
UnOps == {"neg","abs","sqrt","sin","cos","tan","asin","acos","atan","round","floor","ceil","not","strlen","tochar","tocode","strgetlast","strgetrandom"}
BinOps == {"sub","div","pow","mod","log","atan2","strget","range","random","splitby"}
RelOps == {"gt","ge","lt","le","eq","ne"}
LRep == {"listget","listgetlast","listgetrandom","listlen","listdims","listrank","listrev","listflatten","listisempty","listcons","listcdr","listfind","listcontains",
         "listcolumns","listlines","listjson","listcsv","same","copylist","add","mul","min","max","strcat","listcat","reshape","combinations","list","typeis","split"}
LCmd == {"listinsert","listinsertlast","listinsertrandom","listremove","listremovelast","listremoveall","listassign","listassignlast","listassignrandom"}
Ctl == {"ifexpr","and","or","map","keep","findfirst","combine","closure","if","ifelse","repeat","until","forever","for","foreach","warp","waituntil","try","block","say","think"}
Calls == {"callfn","callclo","callcloin","scallfn","scallclo","scallcloin","fork","return","throw","stop"}
Hosts == {"rpc","srpc","callsys","runsys","unknown","sunknown","ask","netsend","netreply","reply","sleep","broadcast","showvar","hidevar","pause","clone","sclone","deleteclone","syserror","rpcerror","answer","message","timer","resettimer","realtime"}
Props == {"heading","xpos","ypos","pendown","size","visible","effect","penattr","setsize","changesize","forward","gotoxy","changex","changey","setx","sety","turnright","turnleft","setheading",
          "pointtowards","pointtowardsxy","goto","setpensize","changepensize","setcostume","nextcostume","rest","cleareffects","seteffect","changeeffect","setpenattr","changepenattr","setpencolor",
          "setvisible","setpendown","penclear","playsound","playnotes","stopsounds","costume","costumenumber","costumelist","costumename","soundlist","soundname"}
Vars == {"lit","var","this","entity","locals","assign","addassign"}
AllOps == UnOps \cup BinOps \cup RelOps \cup LRep \cup LCmd \cup Ctl \cup Calls \cup Hosts \cup Props \cup Vars
Cls == [o \in AllOps |-> CASE o \in Vars -> "var" [] o \in UnOps -> "un" [] o \in BinOps -> "bin" [] o \in RelOps -> "rel" [] o \in LRep -> "lrep" [] o \in LCmd -> "lcmd"
                          [] o \in Ctl -> "ctl" [] o \in Calls -> "call" [] o \in Hosts -> "host" [] OTHER -> "prop"]
\* blocks that report a value
\* (only used to know nothing: statements and reporters have distinct names)

(***************************************************************************)
(* Small helpers on the machine                                            *)
(***************************************************************************)
Do(m, item) == [m EXCEPT !.todo = <<item, @>>]
Do2(m, i1, i2) == [m EXCEPT !.todo = <<i1, <<i2, @>>>>]
Do3(m, i1, i2, i3) == [m EXCEPT !.todo = <<i1, <<i2, <<i3, @>>>>>>]
Push(m, v) == [m EXCEPT !.vals = <<v, @>>]
Taint(m, why) == [m EXCEPT !.taint = why, !.out = "Taint"]
EntNames(m) == [i \in 1..Len(m.E) |-> m.E[i].name]

\* ---- errors ----
RECURSIVE PopTo(_, _, _)
PopTo(fr, dep, want) == IF dep <= want THEN fr ELSE PopTo(fr[2], dep - 1, want)      \* fr after removing frames above depth want
\* frame record of depth d when the current depth is dep > d
RECURSIVE FrameAt(_, _, _)
FrameAt(fr, dep, d) == IF dep - 1 = d THEN fr[1] ELSE FrameAt(fr[2], dep - 1, d)
ErrText(msg) == IF Len(msg) >= 7 /\ SubSeq(msg, 1, 7) = "Custom:" THEN T(SubSeq(msg, 8, Len(msg))) ELSE IF Len(msg) > 0 /\ Ch(msg, 1) = "~" THEN UnkS ELSE T(msg)
NewCell(m, v) == [m EXCEPT !.V = Append(@, v)]
Define(m, name, v) == [m EXCEPT !.V = Append(@, v), !.loc = (name :> (Len(m.V) + 1)) @@ @]
ClearX(x) == [x EXCEPT !.defer = <<>>, !.bar = 0, !.rk = ""]
\* an error raised by block n
Raise(m, n, msg) ==
  IF m.hs = <<>> THEN
    [m EXCEPT !.out = "Err", !.ov = [cause |-> msg, l |-> IF n = 0 THEN "" ELSE Nd(m, n).l, n |-> n], !.x = ClearX(@)]
  ELSE LET hd == m.hs[1]
           m1 == IF m.dep = hd.d THEN m
                 ELSE LET f == FrameAt(m.fr, m.dep, hd.d) IN [m EXCEPT !.loc = f.loc, !.ent = f.ent, !.lx = f.lx, !.fr = PopTo(m.fr, m.dep, hd.d), !.dep = hd.d]
           m2 == [m1 EXCEPT !.todo = hd.todo, !.vals = hd.vals, !.warp = hd.warp, !.x = [@ EXCEPT !.ul = hd.ul, !.defer = <<>>]]
       IN Define(m2, hd.var, ErrText(msg))
\* finish an operator: r = <<st, h, x>>
Fin(m, rest, r, n) ==
  IF r[1] = 0 THEN [m EXCEPT !.vals = <<r[3], rest>>, !.h = r[2]]
  ELSE IF r[1] = 1 THEN Raise([m EXCEPT !.h = r[2]], n, r[3]) ELSE Taint(m, r[3])
Fail(m, n, r) == IF r[1] = 1 THEN Raise(m, n, r[2]) ELSE Taint(m, r[2])       \* r = <<st, x>>, st # 0

\* ---- variables: cell of a name, 0 if undefined ----
Cell(m, name) == IF name \in DOMAIN m.loc THEN m.loc[name]
                 ELSE IF name \in DOMAIN m.E[m.ent].fields THEN m.E[m.ent].fields[name]
                 ELSE IF name \in DOMAIN m.G THEN m.G[name] ELSE 0
UndefVar(name) == "UndefinedVariable { name: " \o Quote(name) \o " }"

\* ---- literals (lists are rebuilt at each evaluation) ----
RECURSIVE Lit(_, _)
Lit(h, v) == \* <<h, value>>
  CASE v.t = "lst" -> (LET r == FoldLeft(LAMBDA a, y: LET z == Lit(a[1], y) IN <<z[1], Append(a[2], z[2])>>, <<h, <<>>>>, v.e)
                           z == Alloc(r[1], r[2]) IN <<z[2], z[3]>>)
    [] v.t = "n" -> <<h, [t |-> "n", n |-> v.n, k |-> v.k]>>
    [] v.t = "u" -> <<h, LET p == DecParse(v.f) IN IF p.t \in {"none", "taint"} THEN UnkN ELSE p>>
    [] v.t = "s" -> <<h, T(v.s)>>
    [] v.t = "b" -> <<h, B(v.b)>>
    [] v.t = "pi" -> <<h, Apx(31416, 1)>>
    [] v.t = "euler" -> <<h, Apx(27183, 1)>>
    [] v.t = "i" -> <<h, [t |-> "i", i |-> v.i, id |-> 0, cx |-> IF "cx" \in DOMAIN v THEN <<Lit(h, [t |-> "n", n |-> v.cx.n, k |-> v.cx.k])[2], Lit(h, [t |-> "n", n |-> v.cy.n, k |-> v.cy.k])[2]>> ELSE <<>>]>>
    [] v.t = "au" -> <<h, [t |-> "au", au |-> v.au, id |-> 0]>>
    [] OTHER -> <<h, UnkS>>
\* a value supplied by the host: images and sounds are new objects
RECURSIVE HostVal(_, _)
HostVal(h, v) ==
  CASE v.t = "lst" -> (LET r == FoldLeft(LAMBDA a, y: LET z == HostVal(a[1], y) IN <<z[1], Append(a[2], z[2])>>, <<h, <<>>>>, v.e)
                           z == Alloc(r[1], r[2]) IN <<z[2], z[3]>>)
    [] v.t \in {"i", "au"} -> (LET z == Lit(h, v) IN <<[h EXCEPT !.ic = @ + 1], [z[2] EXCEPT !.id = h.ic + 1]>>)
    [] OTHER -> Lit(h, v)

(***************************************************************************)
(* Recording what the outside sees.  Lists are numbered in the order they  *)
(* are met within one record, so sharing and cycles are visible.           *)
(***************************************************************************)
E0 == <<<<>>, <<>>>>
PosIn(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x THEN CHOOSE i \in 1..Len(seq) : seq[i] = x ELSE 0
RECURSIVE EncV(_, _, _)
EncV(h, st, v) == \* <<st, tree>>
  IF v.t = "l" THEN
    LET p == PosIn(st[1], v.l) IN
    IF p > 0 THEN <<st, [t |-> "r", r |-> p]>>
    ELSE LET r == FoldLeft(LAMBDA a, y: LET z == EncV(h, a[1], y) IN <<z[1], Append(a[2], z[2])>>, <<<<Append(st[1], v.l), st[2]>>, <<>>>>, h.L[v.l])
         IN <<r[1], [t |-> "l", e |-> r[2]]>>
  ELSE IF v.t = "c" THEN
    LET p == PosIn(st[2], v.c) IN IF p > 0 THEN <<st, [t |-> "c", id |-> p]>> ELSE <<<<st[1], Append(st[2], v.c)>>, [t |-> "c", id |-> Len(st[2]) + 1]>>
  ELSE IF v.t = "i" THEN <<st, [t |-> "i", i |-> v.i, cx |-> v.cx]>>
  ELSE IF v.t = "au" THEN <<st, [t |-> "au", au |-> v.au]>>
  ELSE <<st, v>>
EncAll(h, vs) == FoldLeft(LAMBDA a, y: LET z == EncV(h, a[1], y) IN <<z[1], Append(a[2], z[2])>>, <<E0, <<>>>>, vs)[2]
Emit(m, ev) == [m EXCEPT !.ev = Append(@, ev)]
\* where a person sits at the other end ("user"), what is shown to them is kept as text
Shown(m, v) == LET r == Fmt(m.h, EntNames(m), v, TRUE, {}) IN IF r[1] THEN r[2] ELSE "?"
EvHost(m, e, k, s, vs) == (IF "user" \in DOMAIN Env(m) /\ k \in {"print", "input"} THEN [text |-> IF vs = <<>> THEN "" ELSE Shown(m, vs[1])] ELSE <<>>) @@
  [e |-> e, k |-> k, ent |-> m.ent, s |-> s, v |-> EncAll(m.h, vs), ul |-> m.x.ul,
  \* what made this instance and this sprite
  by |-> <<m.x.lin, m.x.at, IF m.cur = 0 THEN 0 ELSE m.P[m.cur].root, IF m.ent = 1 THEN "stage" ELSE IF m.E[m.ent].par = 0 THEN "sprite" ELSE "clone", m.E[m.ent].par>>]

\* The host's handlers, in order of priority: each serves the kinds of operations it lists, and leaves others to the next one which handles
\* operations of that sort at all; 0 is the system's own way. The handlers consulted:
Via(m, sort, kind) ==
  LET ls == Env(m).layers
      able == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i: sort \in DOMAIN ls[i])
      first == SelectSeq([j \in 1..Len(able) |-> j], LAMBDA j: \E x \in 1..Len(ls[able[j]][sort]) : ls[able[j]][sort][x] = kind) IN
  IF first = <<>> THEN Append(able, 0) ELSE SubSeq(able, 1, first[1])

(***************************************************************************)
(* Host operations                                                         *)
(***************************************************************************)
HostSpec(m) == LET l == Env(m).host IN IF Len(l) = 0 THEN [p |-> 0, r |-> "ok", v |-> [t |-> "n", n |-> 0, k |-> 0]] ELSE l[(m.hi % Len(l)) + 1]
Defer(m, d) == [m EXCEPT !.x = [@ EXCEPT !.defer = d]]
\* request of kind k; act says where the result goes; feat is its name in errors
Request(m, n, k, s, vs, act, feat) ==
  LET m1 == Emit(m, EvHost(m, "req", k, s, vs))
      \* a question to a person is open until they answer, if there is one
      hp == IF k = "input" /\ "user" \in DOMAIN Env(m) THEN [p |-> 1000000, r |-> IF Env(m).user = "asks" THEN "val" ELSE "ns", v |-> T("")] ELSE HostSpec(m)
      m2 == [m1 EXCEPT !.hi = @ + 1] IN
  IF k = "sys" /\ "files" \in DOMAIN Env(m) THEN
    (LET z == IF s[1] \in FileOps THEN FileOp(m.F, m.h, EntNames(m), s[1], vs) ELSE <<m.F, "ns", <<>>>>
         m3 == [m1 EXCEPT !.F = z[1]] IN
     IF z[2] = "ns" THEN Raise(m1, n, "NotSupported { feature: " \o feat \o " }")
     ELSE IF z[2] = "taint" THEN Taint(m1, z[3]) ELSE Defer(m3, [k |-> "req", p |-> 0, r |-> IF z[2] = "ok" THEN "val" ELSE "err", v |-> z[3], act |-> act, n |-> n]))
  ELSE IF hp.r = "ns" THEN Raise(m2, n, "NotSupported { feature: " \o feat \o " }")
  ELSE Defer(m2, [k |-> "req", p |-> hp.p, r |-> hp.r, v |-> hp.v, act |-> act, n |-> n])
Command(m, n, k, s, vs, feat) ==
  LET m1 == Emit(m, EvHost(m, "cmd", k, s, vs))
      hp == HostSpec(m)
      m2 == [m1 EXCEPT !.hi = @ + 1, !.x = IF k = "print" THEN [@ EXCEPT !.ul = @ + 1] ELSE @] IN
  IF hp.r = "ns" /\ ~Env(m).store THEN Raise(m2, n, "NotSupported { feature: " \o feat \o " }")
  ELSE Defer(m2, [k |-> "cmd", p |-> hp.p, r |-> IF hp.r = "err" THEN "err" ELSE "ok", v |-> hp.v, n |-> n])
\* a sprite command that the property store carries out at once; err is "" or the failure
Stored(m, n, k, s, vs, props, err) ==
  LET m1 == Emit(m, EvHost(m, "cmd", k, s, vs)) IN
  Defer(IF err = "" THEN [m1 EXCEPT !.E[m.ent].props = props] ELSE m1, [k |-> "cmd", p |-> 0, r |-> IF err = "" THEN "ok" ELSE "err", v |-> [t |-> "s", s |-> err], n |-> n])

PropIdx == [XPos |-> 1, YPos |-> 2, Heading |-> 3, Visible |-> 4, Size |-> 5, PenDown |-> 6, PenSize |-> 7, PenColorH |-> 8, PenColorS |-> 9, PenColorV |-> 10, PenColorT |-> 11,
            Tempo |-> 12, Volume |-> 13, Balance |-> 14, ColorH |-> 15, ColorS |-> 16, ColorV |-> 17, ColorT |-> 18, Fisheye |-> 19, Whirl |-> 20, Pixelate |-> 21, Mosaic |-> 22, Negative |-> 23]
Hue == {"Heading", "PenColorH", "ColorH"}
Pct == {"PenColorS", "PenColorV", "PenColorT", "ColorS", "ColorV", "ColorT"}
NonNeg == {"Size", "PenSize"}
Switch == {"Visible", "PenDown"}
Mod360(v) == ModNum(v, I(360))
Limit(prop, v) == IF prop \in Hue THEN Mod360(v) ELSE IF prop \in Pct THEN ClampNum(v, Zero, I(100)) ELSE IF prop \in NonNeg THEN MaxNum(v, Zero) ELSE v
Rgb3(u) == <<(u \div 65536) % 256, (u \div 256) % 256, u % 256>>
\* hue/saturation/value of an opaque colour (intervals)
HsvOf(r, g, b) ==
  LET mx == Max2(r, Max2(g, b))  mn == Min2(r, Min2(g, b))  d == mx - mn
      hue == IF d = 0 THEN 0
             ELSE IF mx = r THEN ((600000 * (g - b)) \div d) % 3600000
             ELSE IF mx = g THEN (600000 * (b - r)) \div d + 1200000
             ELSE (600000 * (r - g)) \div d + 2400000
      sat == IF mx = 0 THEN 0 ELSE (1000000 * d) \div mx
      val == (1000000 * mx) \div 255 IN
  <<IF d = 0 THEN Apx(0, 5) ELSE Apx(hue, 5), Apx(sat, 5), Apx(val, 5)>>
\* a host may keep a property under another (env.pmap): so the ones no block reaches are reached
Kept(m, prop) == IF prop \in DOMAIN Env(m).pmap THEN Env(m).pmap[prop] ELSE prop
Pad5(n) == LET t == IntStr(n) IN SubSeq("00000", 1, 5 - Len(t)) \o t
\* the packed colour of the pen, when it is a corner of the colour solid, opaque or clear
IsOneOf(v, S) == v.t = "n" /\ v.k = 0 /\ v.n \in S
PenColorV(ps) ==
  LET hu == ps[8]  sa == ps[9]  va == ps[10]  tr == ps[11] IN
  IF ~IsOneOf(tr, {0, 100}) THEN UnkN
  ELSE IF IsOneOf(va, {0}) \/ (IsOneOf(va, {100}) /\ IsOneOf(sa, {0})) \/ (IsOneOf(va, {100}) /\ IsOneOf(sa, {100}) /\ IsOneOf(hu, {0, 60, 120, 180, 240, 300})) THEN
    LET q == IF va.n = 0 THEN <<0, 0, 0>> ELSE IF sa.n = 0 THEN <<1, 1, 1>>
             ELSE <<IF hu.n \in {0, 60, 300} THEN 1 ELSE 0, IF hu.n \in {60, 120, 180} THEN 1 ELSE 0, IF hu.n \in {180, 240, 300} THEN 1 ELSE 0>>
        rgb == q[1] * 16711680 + q[2] * 65280 + q[3] * 255 IN
    \* opaque: 4278190080 more
    IF tr.n = 100 THEN I(rgb) ELSE [t |-> "u", y |-> "n", g |-> 13, w |-> IntStr(4278 + (rgb + 190080) \div 1000000) \o LET d == (rgb + 190080) % 1000000 IN (IF d < 100000 THEN "0" ELSE "") \o Pad5(d)]
  ELSE UnkN
SetProp(m, n, prop0, v) ==
  IF ~Env(m).store THEN Command(m, n, "set", <<prop0>>, <<v>>, "SetProperty { prop: " \o prop0 \o " }")
  ELSE LET ps == m.E[m.ent].props  prop == Kept(m, prop0) IN
    IF prop \in Switch THEN Stored(m, n, "set", <<prop0>>, <<v>>, [ps EXCEPT ![PropIdx[prop]] = v], IF v.t = "b" THEN "" ELSE ConvErr(v, "Bool"))
    ELSE LET r == ToNum(v) IN
      IF r[1] = 2 THEN Taint(m, r[2])
      ELSE IF r[1] = 1 THEN Stored(m, n, "set", <<prop0>>, <<v>>, ps, r[2])
      ELSE IF prop = "PenColor" THEN
        (IF r[2].t # "n" THEN Stored(m, n, "set", <<prop0>>, <<v>>, [i \in 1..23 |-> IF i \in 8..11 THEN UnkN ELSE ps[i]], "")
         ELSE LET u == IF r[2].n < 0 THEN 0 ELSE r[2].n \div Pow2(r[2].k)  c == Rgb3(u)  q == HsvOf(c[1], c[2], c[3]) IN
              Stored(m, n, "set", <<prop0>>, <<v>>, [i \in 1..23 |-> IF i \in 8..10 THEN q[i - 7] ELSE IF i = 11 THEN Apx(1000000 - (1000000 * (u \div 16777216)) \div 255, 5) ELSE ps[i]], ""))
      ELSE Stored(m, n, "set", <<prop0>>, <<v>>, [ps EXCEPT ![PropIdx[prop]] = Limit(prop, r[2])], "")
ChangeProp(m, n, prop0, v) ==
  IF ~Env(m).store THEN Command(m, n, "change", <<prop0>>, <<v>>, "ChangeProperty { prop: " \o prop0 \o " }")
  ELSE LET ps == m.E[m.ent].props  prop == Kept(m, prop0) IN
    IF prop = "PenColor" THEN Stored(m, n, "change", <<prop0>>, <<v>>, ps, "attempt to apply relative change to a color") ELSE
    LET i == PropIdx[prop] IN
    IF prop \in Switch THEN Stored(m, n, "change", <<prop0>>, <<v>>, [ps EXCEPT ![i] = B(@.b # v.b)], IF v.t = "b" THEN "" ELSE ConvErr(v, "Bool"))
    ELSE LET r == ToNum(v) IN
      IF r[1] = 2 THEN Taint(m, r[2])
      ELSE IF r[1] = 1 THEN Stored(m, n, "change", <<prop0>>, <<v>>, ps, r[2])
      ELSE Stored(m, n, "change", <<prop0>>, <<v>>, [ps EXCEPT ![i] = Limit(prop, AddNum(@, r[2]))], "")
GetProp(m, n, prop0) ==
  IF ~Env(m).store THEN Request(m, n, "prop", <<prop0>>, <<>>, "push", "GetProperty { prop: " \o prop0 \o " }")
  ELSE LET prop == Kept(m, prop0) IN Defer(Emit(m, EvHost(m, "req", "prop", <<prop0>>, <<>>)),
             [k |-> "req", p |-> 0, r |-> "val", v |-> IF prop = "PenColor" THEN PenColorV(m.E[m.ent].props) ELSE m.E[m.ent].props[PropIdx[prop]], act |-> "push", n |-> n])
Motion(m, n, k, vs, nums, feat) == \* goto, point, forward with numbers already converted
  IF ~Env(m).store THEN Command(m, n, k, <<>>, vs, feat)
  ELSE LET ps == m.E[m.ent].props IN
    IF k = "goto" THEN Stored(m, n, k, <<>>, vs, [ps EXCEPT ![1] = nums[1], ![2] = nums[2]], "")
    ELSE IF k = "gotoent" THEN Stored(m, n, k, <<>>, vs, [ps EXCEPT ![1] = m.E[vs[1].e].props[1], ![2] = m.E[vs[1].e].props[2]], "")
    ELSE IF k \in {"point", "pointent"} THEN
      LET tx == IF k = "point" THEN nums[1] ELSE m.E[vs[1].e].props[1]
          ty == IF k = "point" THEN nums[2] ELSE m.E[vs[1].e].props[2]
          hd == Atan2V(SubNum(tx, ps[1]), SubNum(ty, ps[2])) IN
      Stored(m, n, k, <<>>, vs, [ps EXCEPT ![3] = IF hd.t = "a" /\ hd.m < 0 THEN Apx(hd.m + 3600000, hd.e) ELSE hd], "")
    ELSE \* forward
      LET d == nums[1]  hd == ps[3] IN
      IF hd.t = "n" /\ hd.k = 0 THEN Stored(m, n, k, <<>>, vs, [ps EXCEPT ![1] = AddNum(@, IF hd.n = 0 THEN Zero ELSE MulNum(Apx(SinDeg(hd.n), 1), d)), ![2] = AddNum(@, IF hd.n = 0 THEN d ELSE MulNum(Apx(CosDeg(hd.n), 1), d))], "")
      ELSE Stored(m, n, k, <<>>, vs, [ps EXCEPT ![1] = UnkN, ![2] = UnkN], "")

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
\* the function record a name means in lexical context lx (0 = project level), with its own lexical context
FindFn(fs, name) == LET S == {i \in 1..Len(fs) : fs[i].name = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
FnOf(m, name) ==
  LET own == IF m.lx = 0 THEN 0 ELSE FindFn(Case(m).role.entities[m.lx].funcs, name) IN
  IF own > 0 THEN [f |-> Case(m).role.entities[m.lx].funcs[own], lx |-> m.lx]
  ELSE [f |-> Case(m).role.funcs[FindFn(Case(m).role.funcs, name)], lx |-> 0]
Frame(m, n) == [loc |-> m.loc, ent |-> m.ent, lx |-> m.lx, todo |-> m.todo, vals |-> m.vals, warp |-> m.warp, hs |-> m.hs, ul |-> m.x.ul, from |-> IF n = 0 THEN "" ELSE Nd(m, n).l]
\* enter a callee: body block, its locals, entity and lexical context
Enter(m, n, body, loc, ent, lx) ==
  [m EXCEPT !.fr = <<Frame(m, n), @>>, !.dep = @ + 1, !.todo = <<<<"b", body, 1>>, <<<<"rv">>, <<>>>>>>, !.loc = loc, !.ent = ent, !.lx = lx]
\* leave the current call with value v
Leave(m, v) ==
  IF m.fr = <<>> THEN [m EXCEPT !.out = "Term", !.ov = [v |-> EncAll(m.h, <<v>>), ent |-> m.ent], !.x = [ClearX(@) EXCEPT !.ul = 0]]
  ELSE LET f == m.fr[1] IN
    [m EXCEPT !.fr = @[2], !.dep = @ - 1, !.loc = f.loc, !.ent = f.ent, !.lx = f.lx, !.todo = f.todo, !.vals = <<v, f.vals>>, !.warp = f.warp, !.hs = f.hs, !.x = [@ EXCEPT !.ul = f.ul]]
\* bind names to fresh cells holding vs: <<V, loc>>
Bind(V, loc, names, vs) == FoldLeft(LAMBDA a, i: <<Append(a[1], vs[i]), (names[i] :> (Len(a[1]) + 1)) @@ a[2]>>, <<V, loc>>, Range0(Len(names)))
\* k values from the top of the operand list, oldest first: <<seq, rest>>
RECURSIVE PopN(_, _, _)
PopN(vals, k, acc) == IF k = 0 THEN <<acc, vals>> ELSE PopN(vals[2], k - 1, <<vals[1]>> \o acc)
CallFn(m0, n) ==
  LET nd == Nd(m0, n)
      fn == FnOf(m0, nd.s[1])
      k == Len(nd.a)
      p == PopN(m0.vals, k, <<>>)
      m == [m0 EXCEPT !.vals = p[2]]
      b == Bind(m.V, <<>>, fn.f.params, p[1]) IN
  IF m.dep >= Env(m).maxdepth THEN Raise(m, n, "CallDepthLimit { limit: " \o IntStr(Env(m).maxdepth) \o " }")
  ELSE Do([Enter([m EXCEPT !.V = b[1]], n, fn.f.body, b[2], m.ent, fn.lx) EXCEPT !.vals = <<>>], <<"up", n, 1>>)
\* the closure value vs[1] applied to the rest, in entity ent
CallClo(m, n, clo, args, ent, fork) ==
  IF clo.t # "c" THEN Raise(m, n, ConvErr(clo, "Closure"))
  ELSE LET c == m.C[clo.c]  np == Len(c.params) IN
    IF np # Len(args) THEN Raise(m, n, "ClosureArgCount { expected: " \o IntStr(np) \o ", got: " \o IntStr(Len(args)) \o " }")
    ELSE IF ent.t # "e" THEN Raise(m, n, ConvErr(ent, "Entity"))
    ELSE LET b == Bind(m.V, c.cap, c.params, args) IN
      IF fork THEN [m EXCEPT !.V = b[1], !.spawn = <<[body |-> c.body, loc |-> b[2], ent |-> ent.e, lx |-> c.lx]>>]
      ELSE IF m.dep >= Env(m).maxdepth THEN Raise(m, n, "CallDepthLimit { limit: " \o IntStr(Env(m).maxdepth) \o " }")
      ELSE [Enter([m EXCEPT !.V = b[1]], n, c.body, b[2], ent.e, c.lx) EXCEPT !.vals = <<>>]

(***************************************************************************)
(* Evaluating one block: x n                                               *)
(***************************************************************************)
Exec(m, n) ==
  LET nd == Nd(m, n)  o == nd.o  c == Cls[o] IN
  IF c = "var" THEN
    CASE o = "lit" -> (LET z == Lit(m.h, nd.v) IN [m EXCEPT !.vals = <<z[2], @>>, !.h = z[1]])
      [] o = "var" -> (LET q == Cell(m, nd.s[1]) IN IF q = 0 THEN Raise(m, n, UndefVar(nd.s[1])) ELSE Push(m, m.V[q]))
      [] o = "this" -> Push(m, [t |-> "e", e |-> m.ent])
      [] o = "entity" -> (LET S == {i \in 1..Len(m.E) : m.E[i].orig = 0 /\ m.E[i].name = nd.s[1]} IN
            IF S = {} THEN Raise(m, n, "UndefinedEntity { name: " \o Quote(nd.s[1]) \o " }") ELSE Push(m, [t |-> "e", e |-> CHOOSE i \in S : \A j \in S : i >= j]))
      [] o = "locals" -> FoldLeft(LAMBDA a, s: Define(a, s, Zero), m, nd.s)
      [] OTHER -> Do2(m, <<"x", nd.a[1]>>, <<"a", n>>)
  ELSE IF c = "ctl" THEN
    CASE o = "block" -> Do(m, <<"b", n, 1>>)
      [] o \in {"ifexpr", "if", "ifelse"} -> Do2(m, <<"x", nd.a[1]>>, <<"br", n>>)
      [] o \in {"and", "or"} -> Do2(m, <<"x", nd.a[1]>>, <<"ao", n>>)
      [] o \in {"map", "keep", "findfirst"} -> Do3(m, <<"x", nd.a[1]>>, <<"x", nd.a[2]>>, <<"hi", n>>)
      [] o = "combine" -> Do2(m, <<"x", nd.a[1]>>, <<"hc", n>>)
      [] o = "closure" ->
           (LET np == nd.v.n
                caps == SubSeq(nd.s, np + 1, Len(nd.s))
                r == FoldLeft(LAMBDA a, s: IF a[1] # "" THEN a ELSE LET q == Cell(m, s) IN IF q = 0 THEN <<UndefVar(s), a[2]>> ELSE <<"", (s :> q) @@ a[2]>>, <<"", <<>>>>, caps) IN
            IF r[1] # "" THEN Raise(m, n, r[1])
            ELSE Push([m EXCEPT !.C = Append(@, [body |-> nd.a[1], params |-> SubSeq(nd.s, 1, np), cap |-> r[2], lx |-> m.lx])], [t |-> "c", c |-> Len(m.C) + 1]))
      [] o = "repeat" -> Do2(m, <<"x", nd.a[1]>>, <<"rp", n>>)
      [] o = "until" -> Do2(m, <<"x", nd.a[1]>>, <<"un", n>>)
      [] o = "waituntil" -> Do2(m, <<"x", nd.a[1]>>, <<"wu", n>>)
      [] o = "forever" -> Do3(m, <<"b", nd.a[1], 1>>, <<"y">>, <<"x", n>>)
      [] o = "for" -> Do3(Define(m, nd.s[1], Zero), <<"x", nd.a[1]>>, <<"tn", n>>, <<"f1", n>>)
      [] o = "foreach" -> Do2(Define(m, nd.s[1], Zero), <<"x", nd.a[1]>>, <<"e1", n>>)
      [] o = "warp" -> [Do2(m, <<"b", nd.a[1], 1>>, <<"ws">>) EXCEPT !.warp = @ + 1]
      [] o = "try" ->
           (LET hd == [d |-> m.dep, todo |-> <<<<"ph">>, <<<<"b", nd.a[2], 1>>, m.todo>>>>, vals |-> m.vals, warp |-> m.warp, ul |-> m.x.ul, var |-> nd.s[1]] IN
            [Do2(m, <<"b", nd.a[1], 1>>, <<"ph">>) EXCEPT !.hs = <<hd, @>>])
      [] OTHER -> \* say, think
           IF Len(nd.a) = 1 THEN Do2(m, <<"x", nd.a[1]>>, <<"a", n>>)
           ELSE [m EXCEPT !.todo = <<<<"x", nd.a[1]>>, <<<<"a", n>>, <<<<"x", nd.a[2]>>, <<<<"sl", n>>, <<<<"pe", n>>, @>>>>>>>>>>]
  ELSE IF o \in {"callfn", "scallfn"} THEN Do(FoldLeft(LAMBDA a, u: Define(a, u, Zero), m, Tail(nd.s)), <<"e", n, 1>>)      \* variables passed by name exist from here on
  ELSE IF Len(nd.a) = 0 THEN Do(m, <<"a", n>>)
  ELSE IF Len(nd.a) = 1 THEN Do2(m, <<"x", nd.a[1]>>, <<"a", n>>)
  ELSE IF c = "host" /\ o \in {"callsys", "runsys"} THEN Do3(m, <<"x", nd.a[1]>>, <<"x", nd.a[2]>>, <<"a", n>>)
  ELSE IF Len(nd.a) = 2 THEN Do3(m, <<"x", nd.a[1]>>, <<"x", nd.a[2]>>, <<"a", n>>)
  ELSE Do(m, <<"e", n, 1>>)

(***************************************************************************)
(* Applying a block to its computed operands                               *)
(***************************************************************************)
Items(m, v) == m.h.L[v.l]
Fold1(h, r) == <<r[1], h, r[2]>>
LRepV(m, n, nd, a) == \* a: operands; <<st, h, x>>
  LET h == m.h  o == nd.o IN
  CASE o = "list" -> Alloc(h, a)
    [] o = "listget" -> ListGet(h, a[1], a[2])
    [] o = "listgetlast" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE LET x == h.L[a[1].l] IN IF Len(x) = 0 THEN Er(h, OobErr(1, 0)) ELSE Ok(h, x[Len(x)])
    [] o = "listgetrandom" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE LET x == h.L[a[1].l] IN IF Len(x) = 0 THEN Er(h, OobErr(1, 0)) ELSE LET d == RandInt(h, 1, Len(x)) IN Ok(d[1], x[d[2]])
    [] o = "listlen" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE Ok(h, I(Len(h.L[a[1].l])))
    [] o = "listisempty" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE Ok(h, B(Len(h.L[a[1].l]) = 0))
    [] o = "listdims" -> LET r == DimR(h, a[1], 1, <<>>, {}) IN IF r[1] # 0 THEN Fold1(h, r) ELSE Alloc(h, [i \in 1..Len(r[2]) |-> I(r[2][i])])
    [] o = "listrank" -> LET r == DimR(h, a[1], 1, <<>>, {}) IN IF r[1] # 0 THEN Fold1(h, r) ELSE Ok(h, I(Len(r[2])))
    [] o = "listrev" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE LET x == h.L[a[1].l] IN Alloc(h, [i \in 1..Len(x) |-> x[Len(x) + 1 - i]])
    [] o = "listflatten" -> LET r == FlatR(h, a[1], {}) IN IF r[1] # 0 THEN Fold1(h, r) ELSE Alloc(h, r[2])
    [] o = "listcons" -> IF ~IsL(a[2]) THEN Er(h, ConvErr(a[2], "List")) ELSE Alloc(h, <<a[1]>> \o h.L[a[2].l])
    [] o = "listcdr" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE LET x == h.L[a[1].l] IN IF Len(x) = 0 THEN Er(h, OobErr(1, 0)) ELSE Alloc(h, Tail(x))
    [] o = "listfind" -> IF ~IsL(a[2]) THEN Er(h, ConvErr(a[2], "List")) ELSE LET r == Find(h, h.L[a[2].l], a[1]) IN IF r[1] # 0 THEN Fold1(h, r) ELSE Ok(h, I(r[2]))
    [] o = "listcontains" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE LET r == Find(h, h.L[a[1].l], a[2]) IN IF r[1] # 0 THEN Fold1(h, r) ELSE Ok(h, B(r[2] > 0))
    [] o = "listcolumns" -> Columns(h, a[1])
    [] o = "listlines" ->
         IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List"))
         ELSE LET x == h.L[a[1].l]
                  r == FoldLeft(LAMBDA s, i: IF s[1] = 1 THEN s ELSE LET t == ToText(x[i]) IN
                          IF t[1] = 1 THEN t ELSE IF s[1] = 2 \/ t[2].t = "u" THEN <<2, "">> ELSE <<0, s[2] \o (IF i > 1 THEN "\n" ELSE "") \o t[2].s>>, <<0, "">>, Range0(Len(x))) IN
              IF r[1] = 1 THEN Er(h, r[2]) ELSE IF r[1] = 2 THEN Ok(h, UnkS) ELSE Ok(h, T(r[2]))
    [] o = "listjson" -> ToJsonText(h, a[1])
    [] o = "listcsv" -> ToCsv(h, a[1])
    [] o = "same" -> LET r == Identical(a[1], a[2]) IN IF r[1] # 0 THEN Ta(h, r[2]) ELSE Ok(h, B(r[2]))
    [] o = "copylist" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE Alloc(h, h.L[a[1].l])
    [] o \in {"add", "mul"} -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE FoldOps(h, h.L[a[1].l], o, IF o = "add" THEN Zero ELSE I(1))
    [] o \in {"min", "max"} -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE MinMax(h, h.L[a[1].l], IF o = "min" THEN "lt" ELSE "gt")
    [] o = "strcat" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List"))
                       ELSE LET x == h.L[a[1].l]  ts == [i \in 1..Len(x) |-> DisplayText(h, EntNames(m), x[i])] IN
                            IF \E i \in 1..Len(ts) : ts[i].t = "u" THEN Ok(h, UnkS) ELSE Ok(h, T(JoinStr([i \in 1..Len(ts) |-> ts[i].s])))
    [] o = "listcat" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List")) ELSE LET r == AllLists(h, h.L[a[1].l]) IN IF r[1] # 0 THEN Fold1(h, r) ELSE Alloc(h, FoldLeft(LAMBDA s, y: s \o y, <<>>, r[2]))
    [] o = "reshape" -> IF ~IsL(a[2]) THEN Er(h, ConvErr(a[2], "List")) ELSE Reshape(h, a[1], h.L[a[2].l])
    [] o = "combinations" -> IF ~IsL(a[1]) THEN Er(h, ConvErr(a[1], "List"))
                             ELSE LET r == AllLists(h, h.L[a[1].l]) IN IF r[1] # 0 THEN Fold1(h, r) ELSE IF Len(r[2]) = 0 THEN Alloc(h, <<>>) ELSE AllocAll(h, CartR(r[2], 1))
    [] o = "typeis" -> Ok(h, B(TypeName(a[1]) = nd.s[1]))
    [] o = "split" -> Un(nd.s[1], h, a[1])
    [] OTHER -> Ta(h, o)

RemoveAtSet(s, S) == LET idx == SelectSeq(Range0(Len(s)), LAMBDA i: i \notin S) IN [i \in 1..Len(idx) |-> s[idx[i]]]
InsertAt1(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
\* positions in increasing order
Sorted(S) == SetToSortSeq(S, LAMBDA p, q: p < q)
SetList(m, l, s) == [m EXCEPT !.h.L[l] = s]
LCmdM(m, n, nd, a) ==
  LET o == nd.o
      lst == a[IF o \in {"listinsert"} THEN 3 ELSE IF o \in {"listinsertlast", "listinsertrandom", "listremove", "listassign"} THEN 2 ELSE 1] IN
  IF ~IsL(lst) THEN Raise(m, n, ConvErr(lst, "List"))
  ELSE LET l == lst.l  x == m.h.L[l]  len == Len(x) IN
    CASE o = "listinsert" ->
           (LET s == IndexSet(m.h, a[2], len + 1) IN
            IF s[1] # 0 THEN Fail(m, n, s)
            ELSE SetList(m, l, FoldLeft(LAMBDA y, i: InsertAt1(y, i, a[1]), x, Reverse(Sorted(s[2])))))
      [] o = "listinsertlast" -> SetList(m, l, Append(x, a[1]))
      [] o = "listinsertrandom" -> (LET d == RandInt(m.h, 1, len + 1) IN SetList([m EXCEPT !.h = d[1]], l, InsertAt1(x, d[2], a[1])))
      [] o = "listremove" -> (LET s == IndexSet(m.h, a[1], len) IN IF s[1] # 0 THEN Fail(m, n, s) ELSE SetList(m, l, RemoveAtSet(x, s[2])))
      [] o = "listremovelast" -> IF len = 0 THEN Raise(m, n, OobErr(1, 0)) ELSE SetList(m, l, SubSeq(x, 1, len - 1))
      [] o = "listremoveall" -> SetList(m, l, <<>>)
      [] o = "listassign" -> (LET s == IndexSet(m.h, a[1], len) IN IF s[1] # 0 THEN Fail(m, n, s) ELSE SetList(m, l, [i \in 1..len |-> IF i \in s[2] THEN a[3] ELSE x[i]]))
      [] o = "listassignlast" -> IF len = 0 THEN Raise(m, n, OobErr(1, 0)) ELSE SetList(m, l, [x EXCEPT ![len] = a[2]])
      [] OTHER -> \* listassignrandom
           IF len = 0 THEN Raise(m, n, OobErr(1, 0)) ELSE LET d == RandInt(m.h, 1, len) IN SetList([m EXCEPT !.h = d[1]], l, [x EXCEPT ![d[2]] = a[2]])

\* ---- costumes and sounds ----
Lookup(pairs, name) == LET S == {i \in 1..Len(pairs) : pairs[i][1] = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
SetCostumeTo(m, n, c) == IF m.E[m.ent].costume = c THEN m ELSE Command([m EXCEPT !.E[m.ent].costume = c], n, "costume", <<>>, <<c>>, "SetCostume")
CostNum(m) == LET c == m.E[m.ent].costume  ps == m.E[m.ent].costumes  S == {i \in 1..Len(ps) : ps[i][2] = c} IN
              IF c.t # "i" \/ S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
PrepNote(v) ==
  LET r == ToNum(v) IN
  IF r[1] = 2 THEN r
  ELSE IF r[1] = 0 THEN
    (IF r[2].t # "n" THEN <<2, "note">>
     ELSE IF r[2].k # 0 THEN <<1, FltErr("NoteNotInteger { note: ", r[2], " }")>>
     ELSE IF r[2].n < 0 \/ r[2].n > 127 THEN <<1, "NoteNotMidi { note: " \o Quote(IntStr(r[2].n)) \o " }">> ELSE <<0, r[2].n>>)
  ELSE LET t == ToText(v) IN
    IF t[1] # 0 THEN t ELSE IF t[2].t = "u" THEN <<2, "note">> ELSE <<2, t[2].s>>     \* names: decided by NoteOf below
NoteOf(v) == LET p == PrepNote(v) IN IF p[1] = 2 /\ v.t = "s" /\ ToNum(v)[1] = 1 THEN (LET q == NoteName(v.s).midi IN IF q < 0 THEN <<1, "NoteNotMidi { note: " \o Quote(v.s) \o " }">> ELSE <<0, q>>) ELSE p

EffectProp == [color |-> "ColorH", saturation |-> "ColorS", brightness |-> "ColorV", ghost |-> "ColorT", fisheye |-> "Fisheye", whirl |-> "Whirl", pixelate |-> "Pixelate", mosaic |-> "Mosaic", negative |-> "Negative"]
PenProp == [size |-> "PenSize", hue |-> "PenColorH", saturation |-> "PenColorS", brightness |-> "PenColorV", transparency |-> "PenColorT"]
GetMap == [heading |-> "Heading", xpos |-> "XPos", ypos |-> "YPos", pendown |-> "PenDown", size |-> "Size", visible |-> "Visible"]
SetMap == [setsize |-> "Size", setx |-> "XPos", sety |-> "YPos", setheading |-> "Heading", setpensize |-> "PenSize"]
ChgMap == [changesize |-> "Size", changex |-> "XPos", changey |-> "YPos", turnright |-> "Heading", changepensize |-> "PenSize"]
\* a place to go to or point at
Place(m, n, v, kxy, kent, fxy, fent) ==
  IF v.t = "e" THEN Motion(m, n, kent, <<v>>, <<>>, fent)
  ELSE IF ~IsL(v) THEN Raise(m, n, ConvErr(v, "Entity"))
  ELSE LET x == m.h.L[v.l] IN
    IF Len(x) # 2 THEN Raise(m, n, "InvalidListLength { expected: 2, got: " \o IntStr(Len(x)) \o " }")
    ELSE LET p == ToNum(x[1]) IN IF p[1] # 0 THEN Fail(m, n, p) ELSE LET q == ToNum(x[2]) IN IF q[1] # 0 THEN Fail(m, n, q)
      ELSE Motion(m, n, kxy, <<p[2], q[2]>>, <<p[2], q[2]>>, fxy)
XY(m, n, a, k, f) == \* y is converted first
  LET q == ToNum(a[2]) IN IF q[1] # 0 THEN Fail(m, n, q) ELSE LET p == ToNum(a[1]) IN IF p[1] # 0 THEN Fail(m, n, p) ELSE Motion(m, n, k, <<p[2], q[2]>>, <<p[2], q[2]>>, f)
PlayNotes(m, n, notes, beats, wait) ==
  LET bt == ToNum(beats) IN
  IF bt[1] # 0 THEN Fail(m, n, bt)
  ELSE LET src == IF IsL(notes) THEN m.h.L[notes.l] ELSE <<notes>>
           r == FoldLeft(LAMBDA s, v: IF s[1] # 0 THEN s ELSE LET p == NoteOf(v) IN IF p[1] # 0 THEN p ELSE <<0, Append(s[2], I(p[2]))>>, <<0, <<>>>>, src) IN
    IF r[1] # 0 THEN Fail(m, n, r)
    ELSE IF Sign(bt[2]) = 2 THEN Taint(m, "beats")
    ELSE IF Sign(bt[2]) <= 0 THEN m
    ELSE Command(m, n, "notes", <<IF wait THEN "wait" ELSE "">>, Append(r[2], bt[2]), "PlayNotes { blocking: " \o (IF wait THEN "true" ELSE "false") \o " }")
PropM(m, n, nd, a) ==
  LET o == nd.o  e == m.E[m.ent] IN
  CASE o \in DOMAIN GetMap -> GetProp(m, n, GetMap[o])
    [] o = "effect" -> GetProp(m, n, EffectProp[nd.s[1]])
    [] o = "penattr" -> GetProp(m, n, PenProp[nd.s[1]])
    [] o \in DOMAIN SetMap -> SetProp(m, n, SetMap[o], a[1])
    [] o \in DOMAIN ChgMap -> ChangeProp(m, n, ChgMap[o], a[1])
    [] o = "turnleft" -> (LET r == Un("neg", m.h, a[1]) IN IF r[1] = 1 THEN Raise(m, n, r[3]) ELSE IF r[1] = 2 THEN Taint(m, r[3]) ELSE ChangeProp([m EXCEPT !.h = r[2]], n, "Heading", r[3]))
    [] o = "seteffect" -> SetProp(m, n, EffectProp[nd.s[1]], a[1])
    [] o = "changeeffect" -> ChangeProp(m, n, EffectProp[nd.s[1]], a[1])
    [] o = "setpenattr" -> SetProp(m, n, PenProp[nd.s[1]], a[1])
    [] o = "changepenattr" -> ChangeProp(m, n, PenProp[nd.s[1]], a[1])
    [] o = "setvisible" -> SetProp(m, n, "Visible", B(nd.s[1] = "true"))
    [] o = "setpendown" -> SetProp(m, n, "PenDown", B(nd.s[1] = "true"))
    [] o = "setpencolor" -> (LET c == nd.v.c IN
          IF c[4] > 31 THEN (IF ~Env(m).store THEN SetProp(m, n, "PenColor", UnkN)
                              ELSE LET q == HsvOf(c[1], c[2], c[3]) IN
                                   Stored(m, n, "set", <<"PenColor">>, <<UnkN>>, [i \in 1..23 |-> IF i \in 8..10 THEN q[i - 7] ELSE IF i = 11 THEN Apx(1000000 - (1000000 * c[4]) \div 255, 5) ELSE e.props[i]], ""))
          ELSE SetProp(m, n, "PenColor", Norm(c[4] * 16777216 + c[1] * 65536 + c[2] * 256 + c[3], 0)))
    [] o = "cleareffects" -> IF ~Env(m).store THEN Command(m, n, "cleareffects", <<>>, <<>>, "ClearEffects")
                             ELSE Stored(m, n, "cleareffects", <<>>, <<>>, [i \in 1..23 |-> IF i >= 15 THEN Zero ELSE e.props[i]], "")
    [] o = "penclear" -> Command(m, n, "cleardrawings", <<>>, <<>>, "ClearDrawings")
    [] o = "forward" -> (LET r == ToNum(a[1]) IN IF r[1] # 0 THEN Fail(m, n, r) ELSE Motion(m, n, "forward", <<r[2]>>, <<r[2]>>, "Forward"))
    [] o = "gotoxy" -> XY(m, n, a, "goto", "GotoXY")
    [] o = "pointtowardsxy" -> XY(m, n, a, "point", "PointTowardsXY")
    [] o = "goto" -> Place(m, n, a[1], "goto", "gotoent", "GotoXY", "GotoEntity")
    [] o = "pointtowards" -> Place(m, n, a[1], "point", "pointent", "PointTowardsXY", "PointTowardsEntity")
    [] o = "costume" -> Push(m, e.costume)
    [] o = "costumenumber" -> Push(m, I(CostNum(m)))
    [] o = "costumelist" -> (LET z == Alloc(m.h, [i \in 1..Len(e.costumes) |-> e.costumes[i][2]]) IN [m EXCEPT !.h = z[2], !.vals = <<z[3], @>>])
    [] o = "soundlist" -> (LET z == Alloc(m.h, [i \in 1..Len(e.sounds) |-> e.sounds[i][2]]) IN [m EXCEPT !.h = z[2], !.vals = <<z[3], @>>])
    [] o = "setcostume" ->
         (IF a[1].t = "i" THEN SetCostumeTo(m, n, a[1])
          ELSE IF a[1].t = "s" THEN (IF a[1].s = "" THEN SetCostumeTo(m, n, Empty) ELSE LET i == Lookup(e.costumes, a[1].s) IN
                                       IF i = 0 THEN Raise(m, n, "UndefinedCostume { name: " \o Quote(a[1].s) \o " }") ELSE SetCostumeTo(m, n, e.costumes[i][2]))
          ELSE IF a[1].t = "u" THEN Taint(m, "costume")
          ELSE Raise(m, n, ConvErr(a[1], "Image")))
    [] o = "nextcostume" -> (LET i == CostNum(m)  k == Len(e.costumes) IN IF i = 0 THEN m ELSE SetCostumeTo(m, n, e.costumes[(i % k) + 1][2]))
    [] o = "costumename" -> (IF a[1].t = "i" THEN Push(m, T(a[1].i)) ELSE IF a[1].t = "s" THEN (IF a[1].s = "" THEN Push(m, Empty) ELSE LET i == Lookup(e.costumes, a[1].s) IN
                               IF i = 0 THEN Raise(m, n, "UndefinedCostume { name: " \o Quote(a[1].s) \o " }") ELSE Push(m, T(e.costumes[i][2].i)))
                             ELSE IF a[1].t = "u" THEN Taint(m, "costume") ELSE Raise(m, n, ConvErr(a[1], "Image")))
    [] o = "soundname" -> (IF a[1].t = "au" THEN Push(m, T(a[1].au)) ELSE IF a[1].t = "s" THEN (LET i == Lookup(e.sounds, a[1].s) IN
                               IF i = 0 THEN Raise(m, n, "UndefinedSound { name: " \o Quote(a[1].s) \o " }") ELSE Push(m, T(e.sounds[i][2].au)))
                             ELSE IF a[1].t = "u" THEN Taint(m, "sound") ELSE Raise(m, n, ConvErr(a[1], "Audio")))
    [] o = "playsound" ->
         (LET w == nd.s[1] = "wait"
              play(q, snd) == Command(q, n, "sound", <<IF w THEN "wait" ELSE "">>, <<snd>>, "PlaySound { blocking: " \o (IF w THEN "true" ELSE "false") \o " }") IN
          IF a[1].t = "au" THEN play(m, a[1])
          ELSE IF a[1].t = "s" THEN (IF a[1].s = "" THEN m ELSE LET i == Lookup(e.sounds, a[1].s) IN IF i = 0 THEN Raise(m, n, "UndefinedSound { name: " \o Quote(a[1].s) \o " }") ELSE play(m, e.sounds[i][2]))
          ELSE IF a[1].t = "u" THEN Taint(m, "sound") ELSE Raise(m, n, ConvErr(a[1], "Audio")))
    [] o = "playnotes" -> PlayNotes(m, n, a[1], a[2], nd.s[1] = "wait")
    [] o = "rest" -> (LET z == Alloc(m.h, <<>>) IN PlayNotes([m EXCEPT !.h = z[2]], n, z[3], a[1], TRUE))
    [] o = "stopsounds" -> Command(m, n, "stopsounds", <<>>, <<>>, "StopSounds")
    [] OTHER -> Taint(m, "prop " \o o)

\* ---- clock ----
HasTime(m) == Env(m).timemode # "none"
NoTime == "NotSupported { feature: ArbitraryTime }"
DaysIn(y, mo) == IF mo = 2 THEN (IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28) ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE AddDays(_, _, _, _)
AddDays(y, mo, d, k) == IF k = 0 THEN <<y, mo, d>> ELSE IF d + k <= DaysIn(y, mo) THEN <<y, mo, d + k>> ELSE AddDays(IF mo = 12 THEN y + 1 ELSE y, IF mo = 12 THEN 1 ELSE mo + 1, 1, k - (DaysIn(y, mo) - d) - 1)
Dow(y, mo, d) == LET t == <<0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4>>  yy == IF mo < 3 THEN y - 1 ELSE y IN (yy + (yy \div 4) - (yy \div 100) + (yy \div 400) + t[mo] + d) % 7      \* 0 = Sunday
\* days from 1970-01-01
DayNo(y, mo, d) == LET yy == IF mo < 3 THEN y - 1 ELSE y  mp == (mo + 9) % 12 IN yy * 365 + (yy \div 4) - (yy \div 100) + (yy \div 400) + ((153 * mp + 2) \div 5) + d - 1 - 719468
\* milliseconds since 1970 in universal time: a number too wide for the arithmetic here, known by its digits
UnixMs(m) ==
  LET b == Env(m).base
      ms == (b[4] * 3600 + b[5] * 60 + b[6] - b[7] * 60) * 1000 + (m.now % 86400000) IN
  [t |-> "u", y |-> "n", g |-> 13, w |-> IntStr((DayNo(b[1], b[2], b[3]) + (m.now \div 86400000)) * 864 + (ms \div 100000)) \o Pad5(ms % 100000)]
RealTime(m, q) ==
  LET b == Env(m).base
      secs == b[4] * 3600 + b[5] * 60 + b[6] + (m.now \div 1000)
      ymd == AddDays(b[1], b[2], b[3], secs \div 86400)
      s == secs % 86400 IN
  CASE q = "year" -> I(ymd[1]) [] q = "month" -> I(ymd[2]) [] q = "date" -> I(ymd[3]) [] q = "dow" -> I(Dow(ymd[1], ymd[2], ymd[3]) + 1)
    [] q = "hour" -> I(s \div 3600) [] q = "minute" -> I((s \div 60) % 60) [] q = "second" -> I(s % 60) [] OTHER -> UnixMs(m)

\* ---- host blocks ----
NjStr(v) == v
\* values sent over the network, as JSON trees; images and sounds become opaque text
RECURSIVE WireTree(_)
WireTree(j) == IF j.t = "l" THEN [t |-> "l", e |-> [i \in 1..Len(j.e) |-> WireTree(j.e[i])]] ELSE IF j.t \in {"i", "au"} THEN UnkS ELSE j
\* a target is a text or a list of texts: <<0, seq of strings>> or an error
Target1(v) == IF v.t = "s" THEN <<0, <<v.s>>>> ELSE IF v.t = "u" /\ v.y = "s" THEN <<2, "target">> ELSE <<1, VarConvErr(v, "Text")>>
Targets(m, v) ==
  IF IsL(v) THEN FoldLeft(LAMBDA a, x: IF a[1] # 0 THEN a ELSE LET t == Target1(x) IN IF t[1] # 0 THEN t ELSE <<0, a[2] \o t[2]>>, <<0, <<>>>>, m.h.L[v.l])
  ELSE Target1(v)
ReplySpec(m) == LET l == Env(m).replies IN IF Len(l) = 0 THEN [p |-> 0, r |-> "none"] ELSE l[(m.pi % Len(l)) + 1]
NetSend(m, n, nd, a, wait) ==
  LET k == Len(a) - 1
      tg == Targets(m, a[k + 1]) IN
  IF tg[1] # 0 THEN Fail(m, n, tg)
  ELSE LET r == FoldLeft(LAMBDA s, i: IF s[1] # 0 THEN s ELSE LET y == Simplify(m.h, a[i], {}) IN IF y[1] # 0 THEN y ELSE <<0, Append(s[2], WireTree(y[2]))>>, <<0, <<>>>>, Range0(k)) IN
    IF r[1] # 0 THEN Fail(m, n, r)
    ELSE LET m1 == Emit(m, [e |-> "msg", k |-> nd.s[1], names |-> SubSeq(nd.s, 2, Len(nd.s)), v |-> r[2], s |-> tg[2], reply |-> wait]) IN
      IF ~wait THEN m1 ELSE LET rp == ReplySpec(m) IN Defer([m1 EXCEPT !.pi = @ + 1], [k |-> "rep", p |-> rp.p, r |-> rp.r, v |-> IF rp.r = "val" THEN rp.v ELSE [t |-> "s", s |-> ""], n |-> n])
NetReply(m, n, a) ==
  LET y == Simplify(m.h, a[1], {}) IN
  IF y[1] # 0 THEN Fail(m, n, y)
  ELSE IF m.x.rk = "" THEN m
  ELSE Emit([m EXCEPT !.x = [@ EXCEPT !.rk = ""]], [e |-> "rep", k |-> m.x.rk, v |-> <<WireTree(y[2])>>])
Opt(m, v) == IF v = <<>> THEN Push(m, Empty) ELSE Push(m, v[1])
HostM(m, n, nd, a) ==
  LET o == nd.o IN
  CASE o \in {"rpc", "srpc"} ->
         Request(IF o = "srpc" THEN Do(m, <<"d">>) ELSE m, n, "rpc", nd.s, a, "rpc", "Rpc { service: " \o Quote(nd.s[2]) \o ", rpc: " \o Quote(nd.s[3]) \o " }")
    [] o \in {"callsys", "runsys"} ->
         (IF ~IsL(a[2]) THEN Raise(m, n, ConvErr(a[2], "List"))
          ELSE LET t == ToText(a[1]) IN IF t[1] # 0 THEN Fail(m, n, t) ELSE IF t[2].t = "u" THEN Taint(m, "syscall name")
            ELSE Request(IF o = "runsys" THEN Do(m, <<"d">>) ELSE m, n, "sys", <<t[2].s>>, m.h.L[a[2].l], "sys", "Syscall { name: " \o Quote(t[2].s) \o " }"))
    [] o \in {"unknown", "sunknown"} -> Request(IF o = "sunknown" THEN Do(m, <<"d">>) ELSE m, n, "unk", nd.s, a, "push", "UnknownBlock { name: " \o Quote(nd.s[1]) \o " }")
    [] o = "ask" -> Request(m, n, "input", <<>>, IF a[1] = Empty THEN <<>> ELSE a, "input", "Input")
    [] o = "syserror" -> Opt(m, m.x.serr)
    [] o = "rpcerror" -> Opt(m, m.x.rerr)
    [] o = "answer" -> Opt(m, m.x.ans)
    [] o = "message" -> Opt(m, m.x.msg)
    [] o = "netsend" -> NetSend(m, n, nd, a, FALSE)
    [] o = "netreply" -> NetSend(m, n, nd, a, TRUE)
    [] o = "reply" -> NetReply(m, n, a)
    [] o = "sleep" ->
         (LET r == ToNum(a[1]) IN
          IF "s" \in DOMAIN nd /\ Len(nd.s) > 0 THEN (IF ~HasTime(m) THEN Raise(m, n, NoTime) ELSE Defer(m, [k |-> "sleep", until |-> 1000000000, n |-> n])) \* longer than any run
          ELSE IF r[1] # 0 THEN Fail(m, n, r)
          ELSE LET s == Sign(r[2]) IN
            IF s = 2 THEN Taint(m, "sleep")
            ELSE IF s <= 0 THEN [m EXCEPT !.out = "Yield"]
            ELSE IF ~HasTime(m) THEN Raise(m, n, NoTime)
            ELSE LET ms == FloorNum(MulNum(r[2], I(1000))) IN
              Defer(m, [k |-> "sleep", until |-> IF ms.t = "n" /\ ms.n < 500000000 THEN m.now + ms.n ELSE 1000000000, n |-> n]))
    [] o = "broadcast" ->
         (LET wait == nd.s[1] = "wait"
              tv == IF Len(a) = 2 THEN a[2] ELSE [t |-> "none"]
              ts == IF Len(a) = 1 THEN <<0, <<>>>>
                    ELSE IF IsL(tv) THEN FoldLeft(LAMBDA s, x: IF s[1] # 0 THEN s ELSE IF x.t = "e" THEN <<0, Append(s[2], x.e)>> ELSE <<1, ConvErr(x, "Entity")>>, <<0, <<>>>>, m.h.L[tv.l])
                    ELSE IF tv.t = "e" THEN <<0, <<tv.e>>>> ELSE <<1, ConvErr(tv, "Entity")>> IN
          IF ts[1] # 0 THEN Fail(m, n, ts)
          ELSE LET t == ToText(a[1]) IN
            IF t[1] # 0 THEN Fail(m, n, t) ELSE IF t[2].t = "u" THEN Taint(m, "message type")
            ELSE [m EXCEPT !.act = [k |-> "cast", msg |-> t[2].s, all |-> Len(a) = 1, to |-> ts[2], wait |-> wait, n |-> n]])
    [] o \in {"showvar", "hidevar"} ->
         (LET q == Cell(m, nd.s[1]) IN
          IF q = 0 THEN Raise(m, n, UndefVar(nd.s[1]))
          ELSE [m EXCEPT !.out = "Watch", !.ov = [create |-> o = "showvar", name |-> nd.s[1], ent |-> m.ent, v |-> EncAll(m.h, <<m.V[q]>>)]])
    [] o = "pause" -> [m EXCEPT !.out = "Pause"]
    [] o \in {"clone", "sclone"} ->
         (IF a[1].t # "e" THEN Raise(m, n, ConvErr(a[1], "Entity"))
          ELSE [(IF o = "clone" THEN Push(m, [t |-> "e", e |-> Len(m.E) + 1]) ELSE m) EXCEPT !.act = [k |-> "clone", of |-> a[1].e, n |-> n]])
    [] o = "deleteclone" -> IF m.E[m.ent].orig = 0 THEN m ELSE [m EXCEPT !.act = [k |-> "delete", of |-> m.ent]]
    [] o = "timer" -> IF ~HasTime(m) THEN Raise(m, n, NoTime) ELSE Push(m, LET d == Max2(0, m.now - m.ts) IN DivNum(I(d), I(1000)))
    [] o = "resettimer" -> IF ~HasTime(m) THEN Raise(m, n, NoTime) ELSE [m EXCEPT !.ts = m.now]
    [] o = "realtime" -> IF Env(m).timemode # "real" THEN Raise(m, n, "NotSupported { feature: RealTime }") ELSE Push(m, RealTime(m, nd.s[1]))
    [] OTHER -> Taint(m, "host " \o o)

ExecStop(m, n, mode) ==
  CASE mode = "block" -> Leave(m, Empty)
    [] mode = "script" -> [m EXCEPT !.act = [k |-> "abort", mode |-> "current"], !.x = ClearX(@)]
    [] mode \in {"all", "scenes"} -> [m EXCEPT !.act = [k |-> "abort", mode |-> "all"], !.x = ClearX(@)]
    [] mode = "allbut" -> [m EXCEPT !.act = [k |-> "abort", mode |-> "others"]]
    [] OTHER -> [m EXCEPT !.act = [k |-> "abort", mode |-> "mine"]]
CallM(m, n, nd, a) == \* operands already removed
  LET o == nd.o IN
  CASE o = "return" -> Leave(m, a[1])
    [] o = "throw" -> (LET t == ToText(a[1]) IN IF t[1] # 0 THEN Fail(m, n, t) ELSE IF t[2].t = "u" THEN Taint(m, "error text") ELSE Raise(m, n, "Custom:" \o t[2].s))
    [] o = "stop" -> ExecStop(m, n, nd.s[1])
    [] o = "callclo" -> CallClo(m, n, a[1], Tail(a), [t |-> "e", e |-> m.ent], FALSE)
    [] o = "scallclo" -> CallClo(Do(m, <<"d">>), n, a[1], Tail(a), [t |-> "e", e |-> m.ent], FALSE)
    [] o = "callcloin" -> CallClo(m, n, a[2], Tail(Tail(a)), a[1], FALSE)
    [] o = "scallcloin" -> CallClo(Do(m, <<"d">>), n, a[2], Tail(Tail(a)), a[1], FALSE)
    [] o = "fork" -> CallClo(m, n, a[1], Tail(a), [t |-> "e", e |-> m.ent], TRUE)
    [] OTHER -> Taint(m, "call " \o o)

Apply(m, n) ==
  LET nd == Nd(m, n)  o == nd.o  c == Cls[o]  vs == m.vals IN
  CASE c = "un" -> Fin(m, vs[2], Un(o, m.h, vs[1]), n)
    [] c = "bin" -> Fin(m, vs[2][2], Bin(o, m.h, vs[2][1], vs[1]), n)
    [] c = "rel" -> (LET r == Rel(m.h, vs[2][1], vs[1], o) IN Fin(m, vs[2][2], IF r[1] = 0 THEN <<0, m.h, B(r[2])>> ELSE <<r[1], m.h, r[2]>>, n))
    [] c = "lrep" -> (LET p == PopN(vs, Len(nd.a), <<>>) IN Fin(m, p[2], LRepV(m, n, nd, p[1]), n))
    [] c = "lcmd" -> (LET p == PopN(vs, Len(nd.a), <<>>) IN LCmdM([m EXCEPT !.vals = p[2]], n, nd, p[1]))
    [] c = "var" -> \* assign, addassign
         (LET q == Cell(m, nd.s[1])  m1 == [m EXCEPT !.vals = vs[2]] IN
          IF q = 0 THEN Raise(m1, n, UndefVar(nd.s[1]))
          ELSE IF o = "assign" THEN [m1 EXCEPT !.V[q] = vs[1]]
          ELSE LET r == Bin("add", m.h, m.V[q], vs[1]) IN
            IF r[1] = 0 THEN [m1 EXCEPT !.V[q] = r[3], !.h = r[2]] ELSE IF r[1] = 1 THEN Raise(m1, n, r[3]) ELSE Taint(m1, r[3]))
    [] c = "call" -> IF o = "callfn" THEN CallFn(m, n) ELSE IF o = "scallfn" THEN CallFn(Do(m, <<"d">>), n)
                     ELSE (LET p == PopN(vs, Len(nd.a), <<>>) IN CallM([m EXCEPT !.vals = p[2]], n, nd, p[1]))
    [] c = "host" -> (LET p == PopN(vs, Len(nd.a), <<>>) IN HostM([m EXCEPT !.vals = p[2]], n, nd, p[1]))
    [] c = "prop" -> (LET p == PopN(vs, Len(nd.a), <<>>) IN PropM([m EXCEPT !.vals = p[2]], n, nd, p[1]))
    [] OTHER -> \* say, think
         Command([m EXCEPT !.vals = vs[2]], n, "print", <<IF o = "say" THEN "Say" ELSE "Think">>, IF vs[1] = Empty THEN <<>> ELSE <<vs[1]>>, "Print")

(***************************************************************************)
(* Work items                                                              *)
(***************************************************************************)
Yield(m) == IF m.warp > 0 THEN m ELSE [m EXCEPT !.out = "Yield"]
\* pop the first element of the (private) list on top of the operands: <<m, value>>; the list must not be empty
Item(m, it) ==
  LET k == it[1]  n == IF Len(it) > 1 THEN it[2] ELSE 0  nd == IF n = 0 THEN [o |-> ""] ELSE Nd(m, n)  vs == m.vals IN
  CASE k = "x" -> Exec(m, n)
    [] k = "a" -> Apply(m, n)
    [] k = "b" -> IF it[3] > Len(nd.a) THEN m ELSE Exec(Do(m, <<"b", n, it[3] + 1>>), nd.a[it[3]])
    [] k = "e" -> IF it[3] > Len(nd.a) THEN Apply(m, n) ELSE Do2(m, <<"x", nd.a[it[3]]>>, <<"e", n, it[3] + 1>>)
    [] k = "d" -> [m EXCEPT !.vals = @[2]]
    [] k = "y" -> Yield(m)
    [] k = "rv" -> Leave(m, Empty)
    [] k = "br" -> \* condition on top
         (LET r == ToBool(vs[1])  m1 == [m EXCEPT !.vals = vs[2]] IN
          IF r[1] # 0 THEN Fail(m1, n, r)
          ELSE IF nd.o = "ifexpr" THEN Do(m1, <<"x", IF r[2].b THEN nd.a[2] ELSE nd.a[3]>>)
          ELSE IF r[2].b THEN Do(m1, <<"b", nd.a[2], 1>>) ELSE IF nd.o = "ifelse" THEN Do(m1, <<"b", nd.a[3], 1>>) ELSE m1)
    [] k = "ao" ->
         (LET r == ToBool(vs[1])  m1 == [m EXCEPT !.vals = vs[2]] IN
          IF r[1] # 0 THEN Fail(m1, n, r)
          ELSE IF r[2].b = (nd.o = "or") THEN Push(m1, r[2]) ELSE Do2(m1, <<"x", nd.a[2]>>, <<"tb", n>>))
    [] k = "tb" -> (LET r == ToBool(vs[1]) IN IF r[1] # 0 THEN Fail(m, n, r) ELSE m)
    [] k = "tn" -> (LET r == ToNum(vs[1]) IN IF r[1] = 0 THEN [m EXCEPT !.vals = <<r[2], vs[2]>>] ELSE Fail(m, n, r))
    [] k = "rp" -> \* remaining count on top
         (LET r == Rel(m.h, vs[1], Zero, "gt") IN
          IF r[1] # 0 THEN Fail([m EXCEPT !.vals = vs[2]], n, r)
          ELSE IF ~r[2] THEN [m EXCEPT !.vals = vs[2]] ELSE Do2(m, <<"b", nd.a[2], 1>>, <<"rd", n>>))
    [] k = "rd" -> (LET r == Bin("sub", m.h, vs[1], I(1)) IN IF r[1] # 0 THEN Fin(m, vs[2], r, n) ELSE Do2([m EXCEPT !.h = r[2], !.vals = <<r[3], vs[2]>>], <<"y">>, <<"rp", n>>))
    [] k = "un" -> (LET r == ToBool(vs[1])  m1 == [m EXCEPT !.vals = vs[2]] IN
          IF r[1] # 0 THEN Fail(m1, n, r) ELSE IF r[2].b THEN m1 ELSE Do3(m1, <<"b", nd.a[2], 1>>, <<"y">>, <<"x", n>>))
    [] k = "wu" -> (LET r == ToBool(vs[1])  m1 == [m EXCEPT !.vals = vs[2]] IN IF r[1] # 0 THEN Fail(m1, n, r) ELSE IF r[2].b THEN m1 ELSE Do2(m1, <<"y">>, <<"x", n>>))
    [] k = "f1" -> Do3(m, <<"x", nd.a[2]>>, <<"tn", n>>, <<"f2", n>>)
    [] k = "f2" -> \* start, stop on the operands
         (IF ~IsNum(vs[2][1]) \/ ~IsNum(vs[1]) THEN Taint(m, "for bounds") ELSE
          LET up == CmpNum(vs[2][1], vs[1]) IN
          IF up = "?" THEN Taint(m, "for bounds")
          ELSE Do([m EXCEPT !.vals = vs[2][2]], <<"fl", n, vs[2][1], AbsNum(SubNum(vs[1], vs[2][1])), IF up = "gt" THEN -1 ELSE 1>>))
    [] k = "fl" -> \* value, counter, direction
         (LET s == Sign(it[4]) IN
          IF s = 2 THEN Taint(m, "for counter") ELSE IF s < 0 THEN m
          ELSE LET q == Cell(m, nd.s[1]) IN
            Do2([m EXCEPT !.V[q] = it[3]], <<"b", nd.a[3], 1>>, <<"fn", n, it[3], it[4], it[5]>>))
    [] k = "fn" -> Do2(m, <<"y">>, <<"fl", n, AddNum(it[3], I(it[5])), SubNum(it[4], I(1)), it[5]>>)
    [] k = "e1" -> (IF ~IsL(vs[1]) THEN Raise([m EXCEPT !.vals = vs[2]], n, ConvErr(vs[1], "List"))
                    ELSE Do([m EXCEPT !.vals = vs[2]], <<"el", n, m.h.L[vs[1].l], 1>>))
    [] k = "el" -> IF it[4] > Len(it[3]) THEN m
                   ELSE LET q == Cell(m, nd.s[1]) IN Do3([m EXCEPT !.V[q] = it[3][it[4]]], <<"b", nd.a[2], 1>>, <<"y">>, <<"el", n, it[3], it[4] + 1>>)
    [] k = "hi" -> \* f, list on the operands: private copy of the list, results so far
         (IF ~IsL(vs[1]) THEN Raise([m EXCEPT !.vals = vs[2][2]], n, ConvErr(vs[1], "List"))
          ELSE Do([m EXCEPT !.vals = vs[2][2]], <<"hl", n, m.h.L[vs[1].l], 1, <<>>, vs[2][1]>>))
    [] k = "hl" -> \* source, position, results, function
         (IF it[4] > Len(it[3]) THEN
            (IF nd.o = "findfirst" THEN Push(m, Empty) ELSE LET z == Alloc(m.h, it[5]) IN [m EXCEPT !.h = z[2], !.vals = <<z[3], @>>])
          ELSE CallClo(Do(m, <<"hr", n, it[3], it[4], it[5], it[6]>>), n, it[6], <<it[3][it[4]]>>, [t |-> "e", e |-> m.ent], FALSE))
    [] k = "hr" -> \* result of the call on top
         (LET m1 == [m EXCEPT !.vals = vs[2]]
              next(res) == Do2(m1, <<"y">>, <<"hl", n, it[3], it[4] + 1, res, it[6]>>) IN
          IF nd.o = "map" THEN next(Append(it[5], vs[1]))
          ELSE LET r == ToBool(vs[1]) IN
            IF r[1] # 0 THEN Fail(m1, n, r)
            ELSE IF nd.o = "keep" THEN next(IF r[2].b THEN Append(it[5], it[3][it[4]]) ELSE it[5])
            ELSE IF r[2].b THEN Push(m1, it[3][it[4]]) ELSE next(<<>>))
    [] k = "hc" -> (IF ~IsL(vs[1]) THEN Raise([m EXCEPT !.vals = vs[2]], n, ConvErr(vs[1], "List"))
                    ELSE Do2([m EXCEPT !.vals = vs[2]], <<"x", nd.a[2]>>, <<"h2", n, m.h.L[vs[1].l]>>))
    [] k = "h2" -> (LET m1 == [m EXCEPT !.vals = vs[2]] IN
                    IF Len(it[3]) = 0 THEN Push(m1, Zero) ELSE Do(m1, <<"hk", n, it[3], 2, it[3][1], vs[1]>>))
    [] k = "hk" -> IF it[4] > Len(it[3]) THEN Push(m, it[5])
                   ELSE CallClo(Do(m, <<"hm", n, it[3], it[4], it[6]>>), n, it[6], <<it[5], it[3][it[4]]>>, [t |-> "e", e |-> m.ent], FALSE)
    [] k = "hm" -> Do2([m EXCEPT !.vals = vs[2]], <<"y">>, <<"hk", n, it[3], it[4] + 1, vs[1], it[5]>>)
    [] k = "ws" -> [m EXCEPT !.warp = @ - 1]
    [] k = "ph" -> [m EXCEPT !.hs = @[2]]
    [] k = "up" -> \* upvar parameters of the function just entered
         (LET fr == m.fr[1]
              fn == FnOf([m EXCEPT !.lx = fr.lx], nd.s[1]).f IN
          FoldLeft(LAMBDA a, u: IF a.out # "" \/ a.todo # m.todo THEN a
             ELSE LET t == ToText(a.V[a.loc[u]]) IN
               IF t[1] # 0 THEN Fail(a, 0, t) ELSE IF t[2].t = "u" THEN Taint(a, "upvar")
               ELSE IF t[2].s \in DOMAIN fr.loc THEN [a EXCEPT !.loc = (u :> fr.loc[t[2].s]) @@ @] ELSE Raise(a, 0, UndefVar(u)), m, fn.upvars))
    [] k = "sl" -> HostM([m EXCEPT !.vals = vs[2]], n, [o |-> "sleep"], <<vs[1]>>)
    [] k = "pe" -> Command(m, n, "print", <<IF nd.o = "say" THEN "Say" ELSE "Think">>, <<>>, "Print")
    [] OTHER -> Taint(m, "item " \o k)

(***************************************************************************)
(* Pending host operations                                                 *)
(***************************************************************************)
BarLive(m, b) == m.x.bar = b \/ (\E p \in 1..Len(m.P) : m.P[p].live /\ p # m.cur /\ m.P[p].x.bar = b) \/ (\E s \in 1..Len(m.S) : \E i \in 1..Len(m.S[s].q) : m.S[s].q[i].bar = b)
Poll(m) ==
  LET d == m.x.defer
      done == [m EXCEPT !.x = [@ EXCEPT !.defer = <<>>]]
      wait == [m EXCEPT !.x = [@ EXCEPT !.defer = [d EXCEPT !.p = @ - 1]], !.out = "Yield"] IN
  CASE d.k = "sleep" -> IF m.now >= d.until THEN done ELSE [m EXCEPT !.out = "Yield"]
    [] d.k = "bar" -> IF BarLive(m, d.b) THEN [m EXCEPT !.out = "Yield"] ELSE done
    [] d.p > 0 -> wait
    [] d.k = "cmd" -> IF d.r = "err" THEN Raise(done, d.n, "Promoted { error: " \o Quote(d.v.s) \o " }") ELSE done
    [] d.k = "rep" -> (LET z == HostVal(m.h, d.v) IN Push([done EXCEPT !.h = z[1]], z[2]))
    [] OTHER -> \* request
         IF d.r = "err" THEN
           LET soft == (d.act = "rpc" /\ Env(m).rpcsoft) \/ (d.act = "sys" /\ Env(m).sysoft) IN
           IF ~soft THEN Raise(done, d.n, "Promoted { error: " \o Quote(d.v.s) \o " }")
           ELSE Push([done EXCEPT !.x = IF d.act = "rpc" THEN [@ EXCEPT !.rerr = <<T(d.v.s)>>] ELSE [@ EXCEPT !.serr = <<T(d.v.s)>>]], T(d.v.s))
         ELSE LET z == IF d.r = "val" THEN <<m.h, d.v>> ELSE HostVal(m.h, d.v)  m1 == [done EXCEPT !.h = z[1]] IN
           CASE d.act = "input" -> [m1 EXCEPT !.x = [@ EXCEPT !.ans = <<z[2]>>]]
             [] d.act = "rpc" -> Push([m1 EXCEPT !.x = [@ EXCEPT !.rerr = <<>>]], z[2])
             [] d.act = "sys" -> Push([m1 EXCEPT !.x = [@ EXCEPT !.serr = <<>>]], z[2])
             [] OTHER -> Push(m1, z[2])

\* one step of the running instance
ProcStep(m) ==
  IF m.x.defer # <<>> THEN Poll(m)
  ELSE IF m.todo = <<>> THEN Leave(m, Empty)
  ELSE Item([m EXCEPT !.todo = @[2], !.cnt = @ + 1], m.todo[1])
=============================================================================
