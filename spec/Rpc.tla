--------------------------------- MODULE Rpc ---------------------------------
(* What the library promises at its boundary: the application's calls and      *)
(* callbacks on both sides, and the messages on the connections in between.    *)
(*                                                                             *)
(* One action per kind of observable event. Its guards say when that event may *)
(* happen, its effect is what everybody may rely on from then on. Each guard   *)
(* belongs to the properties that need it: CHECK selects the ones to enforce   *)
(* (all of them when the system model is checked, one when a trace of the real *)
(* implementation is judged for that property).                                *)
(*                                                                             *)
(* An effect inside the library takes place between two events of the thread   *)
(* that performs it. Until that thread is seen again the effect is uncertain,  *)
(* and the guards allow for both.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT CHECK
VARIABLES cl, call, th, srv
rpcvars == <<cl, call, th, srv>>

Ck(ps, cond) == (ps \cap CHECK # {}) => cond
ALL == {255}
(* the services for which the clients of the harness have event handlers *)
Services == {1, 40, 254, 2, 8, 31, 32, 33, 41, 72, 127, 128, 222, 223, 224, 253}

(* ------------------------------------------------------------ subscriptions *)
(* all but ex, or only ex *)
Everything == [all |-> TRUE, ex |-> {}]
Nothing == [all |-> FALSE, ex |-> {}]
Subscribed(s, sid) == s.all # (sid \in s.ex)
ApplySub(s, op) ==
  IF op.sid = 255 THEN (IF op.un = 0 THEN Everything ELSE Nothing)
  ELSE IF (op.un = 0) = s.all THEN [s EXCEPT !.ex = @ \ {op.sid}] ELSE [s EXCEPT !.ex = @ \cup {op.sid}]
RECURSIVE SubStates(_, _)
SubStates(s, q) == IF q = <<>> THEN {s} ELSE {s} \cup SubStates(ApplySub(s, Head(q)), Tail(q))
RECURSIVE SubEnd(_, _)
SubEnd(s, q) == IF q = <<>> THEN s ELSE SubEnd(ApplySub(s, Head(q)), Tail(q))

(* ------------------------------------------------------------ clients *)
(* st: conn -> acc -> in -> rep -> out; a datagram client goes conn -> in -> conn *)
NewClient(dg, raw) == [st |-> "conn", dg |-> dg, raw |-> raw, gone |-> FALSE, mal |-> FALSE, sure |-> FALSE, by |-> -1,
                       subs |-> IF dg = 1 THEN Nothing ELSE Everything, pq |-> <<>>, pqt |-> -1,
                       toS |-> <<>>, toC |-> <<>>, nsent |-> 0, lastinv |-> 0, subq |-> <<>>, up |-> FALSE]
Known(c) == c \in DOMAIN cl
Here(x) == x.st \in {"acc", "in", "rep"} \/ (x.dg = 1 /\ x.pq # <<>>)
MayIn(x, sid) == Here(x) /\ \E s \in SubStates(x.subs, x.pq) : Subscribed(s, sid)
SureIn(x, sid) == x.st = "in" /\ x.sure /\ ~x.gone /\ ~x.mal /\ \A s \in SubStates(x.subs, x.pq) : Subscribed(s, sid)
SureConn(x) == x.st = "in" /\ x.sure /\ ~x.gone /\ ~x.mal /\ (x.dg = 1 => x.pq = <<>>)
MustSet(k, sid) == {c \in DOMAIN k : SureIn(k[c], sid)}
MaySet(k, sid) == {c \in DOMAIN k : MayIn(k[c], sid)}
Down == srv.shut > 0
Broken(c) == Down \/ ~Known(c) \/ cl[c].st = "out" \/ cl[c].gone \/ cl[c].mal

(* ------------------------------------------------------------ calls *)
NoId == 2147483647      \* a request whose identity nobody keeps
NewCall(c, e) == [c |-> c, id |-> -1, sy |-> e.sy, un |-> e.un, sid |-> e.sid, kd |-> e.kd, ln |-> e.ln, d |-> e.d,
                  ph |-> "new", n |-> 0, bad |-> FALSE, mayin |-> FALSE, mayout |-> FALSE, note |-> FALSE,
                  got |-> <<>>, err |-> FALSE, cert |-> FALSE, fetched |-> FALSE]
IsCall(k) == k \in DOMAIN call
Done(k) == ~IsCall(k) \/ call[k].ph = "fail" \/ call[k].got # <<>> \/ call[k].err \/ call[k].fetched
CallOf(c, id) == {k \in DOMAIN call : call[k].c = c /\ call[k].id = id}
Pick(S) == CHOOSE x \in S : TRUE
ZIn == srv.z \in {"in", "may"}
ZOut == srv.z \in {"out", "may"}

(* ------------------------------------------------------------ threads *)
Idle == [op |-> "idle"]
Sig(o) == "sig" \in DOMAIN o
Th(t) == IF t \in DOMAIN th THEN th[t] ELSE Idle
Rdr(t) == IF t \in DOMAIN srv.rdr THEN srv.rdr[t] ELSE 0
Evp(t) == IF t \in DOMAIN srv.evp THEN srv.evp[t] ELSE <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

RpcInit == /\ cl = <<>> /\ call = <<>> /\ th = <<>>
           /\ srv = [st |-> 1, lossy |-> 0, cap |-> 0, max |-> 2048, rs |-> 0, cmax |-> 2048, sf |-> 0, shut |-> 0, woke |-> FALSE, loop |-> TRUE, held |-> 0, z |-> "in", rdr |-> <<>>, evp |-> <<>>]

(* What thread t was doing inside the library is over once t is seen again. *)
SettleCl(t, keep) ==
  [c \in DOMAIN cl |->
    LET x == cl[c]
        y == IF x.by = t /\ ~x.sure THEN [x EXCEPT !.sure = TRUE] ELSE x
    IN IF x.pqt = t /\ ~keep THEN [y EXCEPT !.subs = SubEnd(@, x.pq), !.pq = <<>>, !.pqt = -1] ELSE y]
SettleCall(t) == LET k == Rdr(t) IN IF k # 0 /\ IsCall(k) THEN [call EXCEPT ![k].cert = TRUE] ELSE call
SettleSrv(t) == IF Rdr(t) # 0 THEN [srv EXCEPT !.rdr = Del(@, t)] ELSE srv
(* broadcasts under way: who has to and who may receive them changes with the clients *)
Upd(k, f) == [t \in DOMAIN f |-> IF f[t].op = "bc" THEN [f[t] EXCEPT !.must = @ \cap MustSet(k, f[t].sid), !.may = @ \cup MaySet(k, f[t].sid)] ELSE f[t]]

REQ == {"P01", "P07", "P08", "P17", "P18", "P20"}
RSP == {"P02", "P07", "P08", "P17", "P18", "P20"}
EVT == {"P05", "P07", "P18"}

(* ============================================================ client side *)
Conn(t, c, dg, raw) ==
  /\ cl' = Put(cl, c, NewClient(dg, raw)) /\ UNCHANGED <<call, th, srv>>
ConnR(t, c, r) ==
  /\ Ck({"P06", "P18"}, r = 0 \/ Down)
  /\ cl' = IF r # 0 /\ Known(c) THEN [cl EXCEPT ![c].st = "out"] ELSE cl
  /\ UNCHANGED <<call, th, srv>>
Call(t, e) ==
  /\ call' = Put(SettleCall(t), e.tag, NewCall(e.c, e)) /\ srv' = SettleSrv(t)
  /\ th' = Put(th, t, [op |-> "call", tag |-> e.tag]) /\ UNCHANGED cl
(* a message of a client is on its way: it is the one that was asked for *)
CS(t, e) ==
  LET c == e.c  x == cl[c]  m == [id |-> e.id, sid |-> e.sid, aid |-> e.aid, ty |-> e.ty, k |-> e.k, ln |-> e.ln, d |-> e.d]
      o == Th(t)  isreq == e.sid # 0 IN
  IF ~Known(c) THEN UNCHANGED rpcvars
  ELSE IF x.raw = 1 THEN
    (* a peer of our own making: note what is a well formed request *)
    LET fr == e.hl = e.sz /\ e.hl <= srv.max + 512
        wf == isreq /\ e.ln >= 0 /\ fr /\ e.ty \in {0, 1} /\ e.aid = (IF e.ty = 0 THEN 1 ELSE 2) /\ e.sid \in {1, 40, 254} IN
    /\ cl' = [cl EXCEPT ![c].toS = Append(@, m), ![c].nsent = @ + 1]
    /\ call' = IF isreq /\ ~IsCall(e.k)
               THEN Put(call, e.k, [NewCall(c, [sy |-> IF e.ty = 0 THEN 1 ELSE 0, un |-> IF fr /\ ~wf THEN 1 ELSE 0, sid |-> e.sid, kd |-> -1, ln |-> e.ln, d |-> e.d])
                                    EXCEPT !.ph = "sent", !.id = e.id, !.n = x.nsent + 1, !.bad = ~wf])
               ELSE call
    /\ UNCHANGED <<th, srv>>
  ELSE
    /\ Ck(REQ, isreq => (o.op = "call" /\ IsCall(o.tag)))
    /\ Ck(REQ, isreq /\ o.op = "call" /\ IsCall(o.tag) =>
               LET k == call[o.tag] IN e.k = o.tag /\ e.sid = k.sid /\ e.ln = k.ln /\ e.d = k.d /\ k.c = c /\ k.ph = "new"
                                       /\ e.ty = (IF k.sy = 1 THEN 0 ELSE 1) /\ e.hl = e.sz)
    /\ Ck({"P05", "P18"}, ~isreq => (o.op = "sub" /\ e.k = o.sid /\ e.aid = o.un))
    (* calls that are not settled yet have identities of their own *)
    /\ Ck({"P02"}, isreq => \A k \in CallOf(c, e.id) : call[k].fetched \/ call[k].sy = 0)
    /\ cl' = [cl EXCEPT ![c].toS = Append(@, m), ![c].nsent = @ + 1]
    /\ call' = IF isreq /\ o.op = "call" /\ IsCall(o.tag) THEN [call EXCEPT ![o.tag].ph = "sent", ![o.tag].id = e.id, ![o.tag].n = x.nsent + 1] ELSE call
    /\ UNCHANGED <<th, srv>>
CallR(t, e) ==
  /\ Ck(REQ \cup {"P02"}, e.r = 0 => IsCall(e.tag) /\ call[e.tag].ph # "new" /\ e.id \in {call[e.tag].id, NoId})
  /\ Ck(REQ, e.r = 0 \/ Broken(e.c) \/ (srv.sf = 1 /\ cl[e.c].dg = 1))
  (* what could not be sent is not a call any more *)
  /\ call' = IF e.r # 0 /\ IsCall(e.tag) THEN [call EXCEPT ![e.tag].ph = "fail"] ELSE call
  /\ th' = Put(th, t, Idle) /\ UNCHANGED <<cl, srv>>
(* a call without an identity is refused, and does not leave the client *)
NcB(t, e) == /\ th' = Put(th, t, [op |-> "none"]) /\ call' = SettleCall(t) /\ srv' = SettleSrv(t) /\ UNCHANGED cl
NcE(t, e) == /\ Ck({"P02", "P20"}, e.r = -1 /\ e.er = 22) /\ th' = Put(th, t, Idle) /\ UNCHANGED <<cl, call, srv>>
Sub(t, e) == /\ th' = Put(th, t, [op |-> "sub", sid |-> e.sid, un |-> e.un]) /\ call' = SettleCall(t) /\ srv' = SettleSrv(t) /\ UNCHANGED cl
SubR(t, e) == /\ Ck({"P05", "P18"}, e.r = 0 \/ Broken(e.c) \/ (srv.sf = 1 /\ cl[e.c].dg = 1)) /\ th' = Put(th, t, Idle) /\ UNCHANGED <<cl, call, srv>>

(* a message of the server has been read by thread t of client c *)
CR(t, e) ==
  LET c == e.c  ks == CallOf(c, e.id)  kerr == CallOf(c, e.k)
      fr == e.hl = e.sz /\ e.sz <= srv.cmax
      k == IF ~fr THEN 0 ELSE IF e.ty = 3 /\ ks # {} THEN Pick(ks) ELSE IF e.ty = 2 /\ e.sid = 0 /\ kerr # {} THEN Pick(kerr) ELSE 0
      call0 == SettleCall(t)  srv0 == SettleSrv(t) IN
  /\ Ck(EVT, Evp(t) = <<>>)
  /\ cl' = IF Known(c) /\ cl[c].toC # <<>> THEN [cl EXCEPT ![c].toC = Tail(@)] ELSE cl
  /\ Ck(RSP \cup EVT, Known(c) /\ cl[c].toC # <<>> /\ LET m == Head(cl[c].toC) IN m.id = e.id /\ m.ty = e.ty /\ m.k = e.k /\ m.sid = e.sid)
  /\ IF k # 0 /\ IsCall(k) /\ call0[k].sy = 1 /\ call0[k].got = <<>> /\ ~call0[k].err /\ ~call0[k].fetched
     THEN /\ call' = IF e.ty = 3 THEN [call0 EXCEPT ![k].got = <<e.k, e.ln, e.d>>] ELSE [call0 EXCEPT ![k].err = TRUE]
          /\ srv' = [srv0 EXCEPT !.rdr = Put(@, t, k)]
     ELSE /\ call' = call0
          /\ srv' = IF fr /\ e.ty = 2 /\ e.sid \in Services THEN [srv0 EXCEPT !.evp = Put(@, t, <<c, e.sid, e.k, e.ln, e.d>>)] ELSE srv0
  /\ UNCHANGED th
(* an event handler of the application runs: for the event which that thread has just read *)
Ev(t, e) ==
  /\ Ck(EVT \cup {"P08"}, Evp(t) = <<e.c, e.sid, e.n, e.ln, e.d>>)
  /\ call' = SettleCall(t) /\ srv' = [SettleSrv(t) EXCEPT !.evp = Del(@, t)] /\ UNCHANGED <<cl, th>>

AwB(t, e) == /\ th' = Put(th, t, [op |-> "await", c |-> e.c, tags |-> {e.tags[j] : j \in DOMAIN e.tags}, all |-> e.all, as |-> e.as, wov |-> FALSE])
             /\ call' = SettleCall(t) /\ srv' = SettleSrv(t) /\ UNCHANGED cl
(* A client with little memory for what it receives may have to wait until     *)
(* results have been fetched. Without such results it always has enough.        *)
Recv == {"await", "wait", "res"}
(* the thread has come to the end: the others have shared the memory with it    *)
Shared(t) == IF "rb" \in DOMAIN srv /\ srv.rb = 1 THEN [x \in DOMAIN th |-> IF x # t /\ th[x].op \in Recv THEN [th[x] EXCEPT !.wov = TRUE] ELSE th[x]] ELSE th
NoRoom(t, c, er) == er = 12 /\ srv.rb = 1 /\ (\/ \E k \in DOMAIN call : call[k].c = c /\ call[k].got # <<>> /\ ~call[k].fetched
                                             \/ \E x \in DOMAIN th \ {t} : th[x].op \in Recv
                                             \/ th[t].wov)
AwCond(o) == IF o.all = 1 THEN \A k \in o.tags : Done(k) ELSE \E k \in o.tags : Done(k)
(* a signal arrives while this thread would wait for the system: the wait may end for that *)
Intr(t) == th' = (IF Th(t).op \in {"await", "wait"} /\ ~Sig(Th(t)) THEN [th EXCEPT ![t] = @ @@ [sig |-> TRUE]] ELSE th) /\ UNCHANGED <<cl, call, srv>>
AwE(t, e) ==
  LET o == Th(t) IN
  /\ Ck({"P03", "P18"}, o.op = "await" /\ e.r = 0 => AwCond(o))
  /\ Ck({"P03", "P07", "P18"}, o.op = "await" /\ e.r # 0 => o.as = 0 /\ (Broken(o.c) \/ NoRoom(t, o.c, e.er) \/ (e.er = 4 /\ Sig(o))))
  /\ Ck({"P02", "P20"}, o.op = "await" /\ e.r # 0 /\ e.er = 12 => NoRoom(t, o.c, e.er))
  /\ Ck(EVT, Evp(t) = <<>>)
  /\ call' = SettleCall(t) /\ srv' = SettleSrv(t) /\ th' = Put(Shared(t), t, Idle) /\ UNCHANGED cl
WtB(t, e) == /\ th' = Put(th, t, [op |-> "wait", c |-> e.c, tag |-> e.tag, bl |-> e.bl, wov |-> FALSE]) /\ call' = SettleCall(t) /\ srv' = SettleSrv(t) /\ UNCHANGED cl
WtE(t, e) ==
  LET o == Th(t) IN
  /\ Ck({"P03"}, o.op = "wait" /\ e.r = 0 /\ o.tag # 0 => Done(o.tag))
  (* 2: the call is not outstanding *)
  /\ Ck({"P03", "P07"}, o.op = "wait" /\ e.r # 0 /\ o.bl = 1 => Broken(o.c) \/ (o.tag # 0 /\ Done(o.tag) /\ e.er = 2) \/ NoRoom(t, o.c, e.er) \/ (e.er = 4 /\ Sig(o)))
  /\ Ck({"P02", "P20"}, o.op \in {"wait", "await"} /\ e.r # 0 /\ e.er = 12 => NoRoom(t, o.c, e.er))
  /\ Ck(EVT, Evp(t) = <<>>)
  /\ call' = SettleCall(t) /\ srv' = SettleSrv(t) /\ th' = Put(Shared(t), t, Idle) /\ UNCHANGED cl

RsB(t, e) ==
  LET call0 == SettleCall(t) IN
  /\ th' = Put(th, t, [op |-> "res", tag |-> e.tag, known |-> e.tag \in DOMAIN call0 /\ call0[e.tag].cert, wov |-> FALSE])
  /\ call' = call0 /\ srv' = SettleSrv(t) /\ UNCHANGED cl
(* st 0 in progress, 1 the values, -1 the call failed, -2 no such call (any more) *)
Rs(t, e) ==
  LET o == Th(t)  k == e.tag  other == \E x \in DOMAIN th \ {t} : th[x].op = "res" /\ th[x].tag = k IN
  /\ Ck(RSP, IsCall(k))
  /\ Ck(RSP, IsCall(k) /\ e.st = 1 => call[k].got = <<e.rt, e.ln, e.d>> /\ ~call[k].fetched)
  /\ Ck(RSP, IsCall(k) /\ e.st = 0 => ~o.known)
  /\ Ck(RSP \cup {"P04"}, IsCall(k) /\ e.st = -1 => call[k].err /\ ~call[k].fetched)
  /\ Ck(RSP, IsCall(k) /\ e.st = -2 => call[k].fetched \/ other \/ call[k].ph = "fail")
  /\ Ck(RSP, IsCall(k) /\ call[k].ph = "fail" => e.st = -2)
  /\ Ck({"P04"}, IsCall(k) /\ call[k].err => e.st # 1)
  /\ call' = IF IsCall(k) /\ e.st \in {1, -1} THEN [call EXCEPT ![k].fetched = TRUE] ELSE call
  /\ th' = Put(Shared(t), t, Idle) /\ UNCHANGED <<cl, srv>>
CShut(t, c) == UNCHANGED rpcvars
CCl(t, c) == LET k == IF Known(c) THEN [cl EXCEPT ![c].gone = TRUE] ELSE cl IN cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>
(* a peer of our own making has sent bytes: nothing is known about it from here on *)
Raw(t, c) == LET k == IF Known(c) THEN [cl EXCEPT ![c].mal = TRUE] ELSE cl IN cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>

(* the server, played by the harness, has sent something malformed to c *)
Mal(t, c) == cl' = (IF Known(c) THEN [cl EXCEPT ![c].mal = TRUE] ELSE cl) /\ UNCHANGED <<call, th, srv>>

(* ============================================================ server side *)
Acc(t, c) ==
  LET k0 == SettleCl(t, FALSE)  k == IF Known(c) THEN [k0 EXCEPT ![c].st = "acc", ![c].by = -1] ELSE k0 IN
  /\ Ck({"P06"}, Known(c) /\ cl[c].st = "conn" /\ cl[c].dg = 0)
  /\ cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>
CbC(t, c) ==
  LET k == IF Known(c) THEN [cl EXCEPT ![c].st = "in", ![c].by = t, ![c].sure = FALSE] ELSE cl IN
  /\ Ck({"P06"}, Known(c) /\ (cl[c].dg = 0 => cl[c].st = "acc"))
  /\ Ck({"P18"}, Known(c) /\ (cl[c].dg = 1 => cl[c].st = "conn" /\ cl[c].pqt = t /\ \E j \in DOMAIN cl[c].pq : cl[c].pq[j].un = 0))
  /\ cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>
CbD(t, c) ==
  LET k == IF Known(c) THEN [cl EXCEPT ![c].st = IF cl[c].dg = 1 THEN "conn" ELSE "rep", ![c].sure = FALSE, ![c].by = -1] ELSE cl IN
  /\ Ck({"P06", "P08"}, Known(c) /\ (cl[c].dg = 0 => cl[c].st = "in" /\ (cl[c].gone \/ cl[c].mal)))
  /\ Ck({"P18"}, Known(c) /\ (cl[c].dg = 1 => cl[c].st = "in" /\ cl[c].pqt = t /\ \E j \in DOMAIN cl[c].pq : cl[c].pq[j] = [sid |-> 255, un |-> 1]))
  /\ cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>
SCl(t, c) ==
  LET k == IF Known(c) THEN [cl EXCEPT ![c].st = "out"] ELSE cl IN
  /\ Ck({"P06", "P08"}, Known(c) /\ (cl[c].st = "rep" \/ Down \/ srv.rs = 1))
  /\ Ck({"P06", "P13"}, Known(c) /\ cl[c].st # "out")
  /\ cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>

(* the server has read a message *)
SR(t, e) ==
  LET c == e.c  k0 == SettleCl(t, TRUE)
      k1 == IF Known(c) THEN [k0 EXCEPT ![c].toS = IF @ = <<>> THEN <<>> ELSE Tail(@)] ELSE k0
      k == IF Known(c) /\ e.sid = 0 /\ e.aid \in {0, 1} THEN [k1 EXCEPT ![c].pq = Append(@, [sid |-> e.k, un |-> e.aid]), ![c].pqt = t] ELSE k1 IN
  /\ Ck(REQ, Known(c) /\ cl[c].toS # <<>> /\ LET m == Head(cl[c].toS) IN m.id = e.id /\ m.k = e.k /\ m.sid = e.sid)
  /\ cl' = k /\ th' = Upd(k, th)
  /\ call' = IF e.sid # 0 /\ IsCall(e.k) /\ call[e.k].ph = "sent"
             THEN [call EXCEPT ![e.k].ph = "read", ![e.k].mayin = ZIn, ![e.k].mayout = ZOut] ELSE call
  /\ UNCHANGED srv

(* a handler starts *)
Inv(t, e) ==
  LET k == e.tag  k0 == SettleCl(t, FALSE) IN
  /\ Ck(REQ, IsCall(k))
  /\ Ck(REQ, IsCall(k) => LET x == call[k] IN
        /\ x.ph = "read" /\ x.c = e.c /\ x.sid = e.svc /\ x.sy = e.sy /\ x.ln = e.ln /\ x.d = e.d /\ (x.kd = -1 \/ x.kd = e.kd) /\ ~x.bad)
  /\ Ck({"P01", "P07", "P18"}, IsCall(k) /\ srv.st = 1 /\ Known(e.c) => call[k].n > cl[e.c].lastinv)
  /\ Ck({"P04", "P20"}, IsCall(k) => call[k].un = 0 /\ ~call[k].note /\ (call[k].sid = 254 => call[k].mayin))
  /\ Ck({"P06"}, Known(e.c) /\ (cl[e.c].dg = 0 => cl[e.c].st \in {"in", "rep", "out"}))
  /\ Ck({"P13"}, srv.loop)
  /\ call' = IF IsCall(k) THEN [call EXCEPT ![k].ph = "inv"] ELSE call
  /\ LET k1 == IF IsCall(k) /\ Known(e.c) /\ call[k].n > cl[e.c].lastinv THEN [k0 EXCEPT ![e.c].lastinv = call[k].n] ELSE k0
     IN cl' = k1 /\ th' = Upd(k1, Put(th, t, Idle))
  /\ UNCHANGED srv
Hold(t) == srv' = [srv EXCEPT !.held = @ + 1] /\ UNCHANGED <<cl, call, th>>
Unhold(t) == srv' = [srv EXCEPT !.held = @ - 1] /\ UNCHANGED <<cl, call, th>>

(* answering a request *)
RB(t, e) ==
  /\ th' = Put(th, t, [op |-> "resp", tag |-> e.tag, rt |-> e.rt, ln |-> e.ln, d |-> e.d, sent |-> FALSE,
                       late |-> IsCall(e.tag) /\ Known(call[e.tag].c) /\ cl[call[e.tag].c].st = "out"])
  /\ UNCHANGED <<cl, call, srv>>
RR(t, e) ==
  LET o == Th(t)  c == IF IsCall(e.tag) THEN call[e.tag].c ELSE -1 IN
  /\ Ck(RSP \cup {"P01"}, o.op = "resp" /\ Known(c) /\ ~Broken(c) => e.r = 0 /\ o.sent)
  /\ Ck({"P02", "P17"}, o.op = "resp" /\ ~o.sent => e.r # 0)
  /\ Ck({"P17"}, o.op = "resp" /\ o.late => e.r # 0 /\ ~o.sent)
  /\ th' = Put(th, t, Idle) /\ UNCHANGED <<cl, call, srv>>
(* broadcasting *)
BB(t, e) == /\ th' = Put(th, t, [op |-> "bc", n |-> e.n, sid |-> e.sid, ln |-> e.ln, d |-> e.d, must |-> MustSet(cl, e.sid), may |-> MaySet(cl, e.sid), sent |-> {}])
            /\ UNCHANGED <<cl, call, srv>>
BE(t, e) == LET o == Th(t) IN
  /\ Ck(EVT, o.op = "bc" /\ srv.lossy = 0 /\ ~Down => o.must \subseteq o.sent)
  /\ th' = Put(th, t, Idle) /\ UNCHANGED <<cl, call, srv>>
TB(t, e) == /\ th' = Put(th, t, [op |-> "tg", n |-> e.n, c |-> e.c, sid |-> e.sid, ln |-> e.ln, d |-> e.d, sent |-> {}, was |-> Known(e.c) /\ SureConn(cl[e.c])])
            /\ UNCHANGED <<cl, call, srv>>
TE(t, e) == LET o == Th(t) IN
  /\ Ck(EVT, o.op = "tg" /\ srv.lossy = 0 /\ ~Down /\ o.was /\ Known(o.c) /\ SureConn(cl[o.c]) => e.r = 0)
  /\ Ck(EVT, o.op = "tg" /\ e.r = 0 => o.sent = {o.c})
  /\ th' = Put(th, t, Idle) /\ UNCHANGED <<cl, call, srv>>

(* the server has sent a message: thread t does so for what it is doing *)
SS(t, e) ==
  LET c == e.c  o == Th(t)  m == [id |-> e.id, sid |-> e.sid, aid |-> e.aid, ty |-> e.ty, k |-> e.k, ln |-> e.ln, d |-> e.d]
      notice == e.ty = 2 /\ e.sid = 0
      ks == {k \in CallOf(c, e.k) : ~call[k].note /\ call[k].ph = "read"} IN
  /\ Ck({"P13"}, srv.loop \/ srv.rs = 1)
  /\ IF srv.rs = 1 THEN UNCHANGED <<call, th>>
     ELSE IF notice THEN
       /\ Ck({"P04"} \cup RSP, Known(c) /\ cl[c].raw = 0 => e.aid = 2 /\ ks # {} /\ \E k \in ks : call[k].un = 1 \/ (call[k].sid = 254 /\ call[k].mayout))
       /\ call' = IF ks # {} THEN [call EXCEPT ![Pick(ks)].note = TRUE] ELSE call
       /\ UNCHANGED th
     ELSE
       /\ Ck(RSP, e.ty = 3 => o.op = "resp" /\ ~o.sent /\ IsCall(o.tag)
                              /\ LET k == call[o.tag] IN c = k.c /\ e.id = k.id /\ e.k = o.rt /\ e.ln = o.ln /\ e.d = o.d /\ e.sid = k.sid)
       /\ Ck({"P17"}, e.ty = 3 /\ o.op = "resp" => ~o.late)
       /\ Ck(EVT, e.ty = 2 => o.op \in {"bc", "tg"} /\ c \notin o.sent /\ e.k = o.n /\ e.sid = o.sid /\ e.ln = o.ln /\ e.d = o.d
                             /\ (IF o.op = "bc" THEN c \in o.may ELSE c = o.c))
       /\ Ck(RSP \cup EVT, e.ty \in {2, 3})
       /\ th' = IF o.op = "resp" THEN [th EXCEPT ![t].sent = TRUE] ELSE IF o.op \in {"bc", "tg"} THEN [th EXCEPT ![t].sent = @ \cup {c}] ELSE th
       /\ UNCHANGED call
  /\ cl' = IF Known(c) THEN [cl EXCEPT ![c].toC = Append(@, m)] ELSE cl
  /\ UNCHANGED srv

(* the service z comes and goes *)
ZCalls(f, in, out) == [k \in DOMAIN f |-> IF f[k].sid = 254 /\ f[k].ph = "read" /\ ~f[k].note
                                          THEN [f[k] EXCEPT !.mayin = @ \/ in, !.mayout = @ \/ out] ELSE f[k]]
OthersReg(t) == {x \in DOMAIN th \ {t} : th[x].op = "reg"}
RegB(t, e) == LET os == OthersReg(t) IN
              /\ srv' = [srv EXCEPT !.z = IF (@ = "in") = (e.on = 1) /\ @ # "may" THEN @ ELSE "may"]
              /\ th' = [x \in DOMAIN th \cup {t} |-> IF x = t THEN [op |-> "reg", z |-> srv.z, ov |-> os # {}]
                                                   ELSE IF x \in os THEN [th[x] EXCEPT !.ov = TRUE] ELSE th[x]]
              /\ call' = ZCalls(call, srv'.z \in {"in", "may"}, srv'.z \in {"out", "may"}) /\ UNCHANGED cl
(* what a registration reports is only known when no other one was under way; what overlapping ones leave behind is not *)
RegE(t, e) == LET o == Th(t)  ov == o.op = "reg" /\ o.ov IN
  /\ Ck({"P04", "P20"}, o.op = "reg" /\ ~ov /\ e.on = 1 /\ ~Down => (e.r = 0) = (o.z # "in") \/ o.z = "may")
  /\ srv' = [srv EXCEPT !.z = IF ov THEN "may" ELSE IF e.on = 1 THEN "in" ELSE "out"]
  /\ call' = IF ov THEN ZCalls(call, TRUE, TRUE) ELSE call
  /\ th' = Put(th, t, Idle) /\ UNCHANGED cl

Shut(t) == srv' = [srv EXCEPT !.shut = IF @ = 0 THEN 1 ELSE @] /\ UNCHANGED <<cl, call, th>>
ShutR(t) == srv' = [srv EXCEPT !.shut = 2] /\ UNCHANGED <<cl, call, th>>
Poll(t) == LET k == SettleCl(t, FALSE) IN
  /\ Ck({"P13"}, srv.loop /\ ~srv.woke)
  /\ cl' = k /\ th' = Upd(k, th) /\ UNCHANGED <<call, srv>>
Wake(t, n) == /\ srv' = [srv EXCEPT !.woke = @ \/ (srv.shut = 2 /\ n > 0)] /\ UNCHANGED <<cl, call, th>>
LCl(t) == /\ Ck({"P13"}, Down \/ srv.rs = 1) /\ UNCHANGED rpcvars
LoopR(t, r) == /\ Ck({"P13"}, srv.shut > 0 /\ r = 0) /\ srv' = [srv EXCEPT !.loop = FALSE] /\ UNCHANGED <<cl, call, th>>

(* nothing can happen any more unless somebody acts from the outside *)
Serving == srv.loop /\ srv.shut = 0 /\ srv.rs = 0 /\ srv.held = 0
           /\ (srv.cap = 1 => \A t \in DOMAIN th : th[t].op \notin {"resp", "bc", "tg"})
Live(c) == ~cl[c].gone /\ ~cl[c].mal /\ cl[c].raw = 0 /\ cl[c].st # "out"
Reading(t, c) == t \in DOMAIN th /\ th[t].op \in {"await", "wait"} /\ th[t].c = c
                 /\ (IF th[t].op = "await" THEN th[t].as = 0 ELSE th[t].bl = 1)
Quiet(t) ==
  /\ Ck({"P01", "P07", "P08", "P18", "P17"}, Serving => \A c \in DOMAIN cl : Live(c) => cl[c].toS = <<>>)
  /\ Ck({"P01", "P07", "P08", "P18", "P17"}, Serving => \A k \in DOMAIN call : Known(call[k].c) /\ Live(call[k].c) /\ call[k].un = 0 =>
        call[k].ph \in {"new", "inv", "fail"} \/ (call[k].sid = 254 /\ call[k].note))
  /\ Ck({"P04"}, Serving => \A k \in DOMAIN call : Known(call[k].c) /\ Live(call[k].c) /\ call[k].un = 1 => call[k].ph \in {"new", "fail"} \/ call[k].note)
  /\ Ck({"P06"}, Serving => \A c \in DOMAIN cl : cl[c].dg = 0 => cl[c].st \in (IF cl[c].gone THEN {"out"} ELSE IF cl[c].mal THEN {"in", "out"} ELSE {"in", "out"}))
  /\ Ck({"P06"}, Serving => \A c \in DOMAIN cl : cl[c].st = "out" => cl[c].gone \/ cl[c].mal)
  (* whoever waits has nothing to wait for any longer? then it must not be waiting *)
  /\ Ck({"P03"}, \A x \in DOMAIN th : th[x].op = "await" => ~AwCond(th[x]))
  /\ Ck({"P03"}, \A x \in DOMAIN th : th[x].op = "wait" => (th[x].tag = 0 \/ ~Done(th[x].tag)))
  /\ Ck({"P03", "P08"}, \A x \in DOMAIN th : Reading(x, IF th[x].op \in {"await", "wait"} THEN th[x].c ELSE -1) =>
         /\ Known(th[x].c) /\ cl[th[x].c].toC = <<>>
         /\ (cl[th[x].c].dg = 0 => cl[th[x].c].st # "out" /\ (srv.loop \/ srv.rs = 1))
         /\ ~(srv.rs = 1 /\ cl[th[x].c].mal /\ cl[th[x].c].dg = 0))
  /\ Ck(RSP \ {"P20"}, Serving => \A x \in DOMAIN th : th[x].op # "resp")
  /\ Ck({"P05", "P18"}, Serving => \A x \in DOMAIN th : th[x].op \notin {"bc", "tg"})
  /\ UNCHANGED rpcvars
End(t, leaked, fds) == /\ Ck({"P06", "P10", "P13"}, leaked = 0) /\ Ck({"P06", "P13"}, fds = 0) /\ Ck({"P13"}, ~srv.loop \/ srv.rs = 1) /\ UNCHANGED rpcvars
Start(e) == /\ cl' = <<>> /\ call' = <<>> /\ th' = <<>>
            /\ srv' = [st |-> e.st, lossy |-> e.lossy, cap |-> e.cap, max |-> e.max, rs |-> e.rs, cmax |-> e.cmax, sf |-> e.sf, rb |-> e.rb, shut |-> 0, woke |-> FALSE, loop |-> e.rs = 0, held |-> 0, z |-> "in", rdr |-> <<>>, evp |-> <<>>]

(* the action of an event *)
Do(e) ==
  CASE e.e = "Run" -> Start(e)
    [] e.e = "Conn" -> Conn(e.t, e.c, e.dg, e.raw)
    [] e.e = "ConnR" -> ConnR(e.t, e.c, e.r)
    [] e.e = "Call" -> Call(e.t, e)
    [] e.e = "CS" -> CS(e.t, e)
    [] e.e = "CallR" -> CallR(e.t, e)
    [] e.e = "NcB" -> NcB(e.t, e)
    [] e.e = "NcE" -> NcE(e.t, e)
    [] e.e = "Sub" -> Sub(e.t, e)
    [] e.e = "SubR" -> SubR(e.t, e)
    [] e.e = "CR" -> CR(e.t, e)
    [] e.e = "Ev" -> Ev(e.t, e)
    [] e.e = "AwB" -> AwB(e.t, e)
    [] e.e = "Intr" -> Intr(e.t)
    [] e.e = "AwE" -> AwE(e.t, e)
    [] e.e = "WtB" -> WtB(e.t, e)
    [] e.e = "WtE" -> WtE(e.t, e)
    [] e.e = "RsB" -> RsB(e.t, e)
    [] e.e = "Rs" -> Rs(e.t, e)
    [] e.e = "CCl" -> CCl(e.t, e.c)
    [] e.e = "Raw" -> Raw(e.t, e.c)
    [] e.e = "Mal" -> Mal(e.t, e.c)
    [] e.e = "Acc" -> Acc(e.t, e.c)
    [] e.e = "CbC" -> CbC(e.t, e.c)
    [] e.e = "CbD" -> CbD(e.t, e.c)
    [] e.e = "SCl" -> SCl(e.t, e.c)
    [] e.e = "SR" -> SR(e.t, e)
    [] e.e = "Inv" -> Inv(e.t, e)
    [] e.e = "Hold" -> Hold(e.t)
    [] e.e = "Unhold" -> Unhold(e.t)
    [] e.e = "RB" -> RB(e.t, e)
    [] e.e = "RR" -> RR(e.t, e)
    [] e.e = "BB" -> BB(e.t, e)
    [] e.e = "BE" -> BE(e.t, e)
    [] e.e = "TB" -> TB(e.t, e)
    [] e.e = "TE" -> TE(e.t, e)
    [] e.e = "SS" -> SS(e.t, e)
    [] e.e = "RegB" -> RegB(e.t, e)
    [] e.e = "RegE" -> RegE(e.t, e)
    [] e.e = "Shut" -> Shut(e.t)
    [] e.e = "ShutR" -> ShutR(e.t)
    [] e.e = "Poll" -> Poll(e.t)
    [] e.e = "Wake" -> Wake(e.t, e.n)
    [] e.e = "LCl" -> LCl(e.t)
    [] e.e = "ECl" -> LCl(e.t)
    [] e.e = "LoopR" -> LoopR(e.t, e.r)
    [] e.e = "Quiet" -> Quiet(e.t)
    [] e.e = "End" -> End(e.t, e.leaked, e.fds)
    [] e.e = "BadClose" -> (Ck({"P06", "P13"}, FALSE) /\ UNCHANGED rpcvars)
    [] e.e \in {"Up", "CShut", "CShutR", "RawR", "Defer", "Never", "InvE", "Runt", "BadFd"} -> UNCHANGED rpcvars
    [] OTHER -> FALSE
=============================================================================
