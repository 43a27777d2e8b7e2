-------------------------------- MODULE System --------------------------------
(* The design of the library as a whole: the loop of the server, its workers,  *)
(* its table of clients with its shared/exclusive lock, connections with       *)
(* handles that are used again, a thread of the application, and clients.      *)
(* Every step that can be observed performs the action of Rpc for that event;  *)
(* ok says whether the guards of all properties in Rpc allowed it. So this     *)
(* shows two things at once: the design keeps the properties, and what Rpc     *)
(* demands can be kept.                                                        *)
EXTENDS Rpc
CONSTANTS NC,      \* clients 1..NC
          DG,      \* those of them that use datagrams
          NW,      \* workers, 0: handlers run on the thread of the loop
          NH,      \* handles 1..NH, used again when they are free
          Kinds,   \* what a client does: "r" a call that is answered, "d" one that is answered later, "u" one that is unknown,
                   \* "b" one that broadcasts, "s" one that shuts the server down, "-" unsubscribe, "+" subscribe, "x" unsubscribe from everything
          MaxOps,  \* number of such operations per client
          Leave,   \* TRUE: clients may leave at any time
          AppShut, \* TRUE: the thread of the application may shut the server down
          Casts,   \* number of broadcasts by the thread of the application
          Targets  \* number of events which it addresses to one client
AllP == {"P01","P02","P03","P04","P05","P06","P07","P08","P10","P13","P17","P18","P20"}
NoneP == {}
G == INSTANCE Rpc WITH CHECK <- AllP
VARIABLES s, ok
vars == <<rpcvars, s, ok>>

Cs == 1..NC
Hs == 1..NH
LOOP == 1
APP == 50
W(i) == 10 + i
Workers == {W(i) : i \in 1..NW}
CT(c) == 100 + c
CTs == {CT(c) : c \in Cs}
Servers == {LOOP, APP} \cup Workers

Say(e) == Do(e) /\ ok' = (ok /\ G!Do(e))
Silent == UNCHANGED <<rpcvars, ok>>

Progs == UNION {[1..n -> Kinds] : n \in 0..MaxOps}
Init ==
  /\ cl = <<>> /\ call = <<>> /\ th = <<>>
  /\ srv = [st |-> IF NW = 0 THEN 1 ELSE 0, lossy |-> 0, cap |-> 0, max |-> 2048, rs |-> 0, cmax |-> 2048, sf |-> 0, rb |-> 0, shut |-> 0,
            woke |-> FALSE, loop |-> TRUE, held |-> 0, z |-> "in", rdr |-> <<>>, evp |-> <<>>]
  /\ ok = TRUE
  /\ \E p \in [Cs -> Progs] :
     s = [prog |-> p, at |-> [c \in Cs |-> 1],
          pc |-> [t \in Servers \cup CTs |-> IF t = LOOP THEN "poll" ELSE IF t \in Workers THEN "idle" ELSE IF t = APP THEN "idle" ELSE "new"],
          job |-> [t \in Servers |-> <<>>],      \* what a thread of the server works on
          evs |-> {}, cur |-> 0,                 \* events of the loop that are still to be handled, and the client of the current one
          todo |-> [t \in Servers |-> {}],       \* handles a broadcast has still to visit
          res |-> [t \in Servers |-> 0],
          up |-> [c \in Cs |-> <<>>], down |-> [c \in Cs |-> <<>>], conn |-> [c \in Cs |-> "none"], left |-> [c \in Cs |-> FALSE],
          hand |-> [c \in Cs |-> 0], tab |-> [h \in Hs |-> 0], subs |-> [c \in Cs |-> c \notin DG], dk |-> {}, pkt |-> <<>>, to |-> Targets, aim |-> <<0, 0>>,
          rd |-> 0, wr |-> FALSE, q |-> [w \in Workers |-> <<>>], rr |-> 1, run |-> "running", saved |-> {}, casts |-> Casts, stop |-> FALSE,
          got |-> [c \in Cs |-> {}], read |-> [c \in Cs |-> {}], quiet |-> FALSE]

At(t, p) == s.pc[t] = p
Sid(k) == IF k = "u" THEN 99 ELSE 1
Tag(c, n) == c * 10 + n
IsSub(k) == k \in {"+", "-", "x"}
Un(k) == IF k = "+" THEN 0 ELSE 1
What(k) == IF k = "x" THEN 255 ELSE 1

(* ------------------------------------------------------------ clients *)
Op(c) == s.prog[c][s.at[c]]
More(c) == s.at[c] <= Len(s.prog[c])
Ask(c) == LET n == s.at[c] IN [id |-> n, c |-> c, k |-> Tag(c, n), kd |-> Op(c)]
ClientConnect(c) ==
  LET t == CT(c) IN
  \/ At(t, "new") /\ Say([e |-> "Conn", t |-> t, c |-> c, dg |-> IF c \in DG THEN 1 ELSE 0, raw |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "conn"]
  \/ At(t, "conn") /\ c \in DG /\ Silent /\ s' = [s EXCEPT !.pc[t] = "connr"]
  \/ At(t, "conn") /\ c \notin DG /\ s.run # "down" /\ Silent /\ s' = [s EXCEPT !.pc[t] = "connr", !.conn[c] = "backlog"]
  \/ At(t, "conn") /\ c \notin DG /\ s.run = "down" /\ Say([e |-> "ConnR", t |-> t, c |-> c, r |-> -1]) /\ s' = [s EXCEPT !.pc[t] = "end"]
  \/ At(t, "connr") /\ Say([e |-> "ConnR", t |-> t, c |-> c, r |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "ops"]
Reach(c) == s.conn[c] # "shut"
ClientOps(c) ==
  LET t == CT(c)  n == s.at[c]  k == Tag(c, n) IN
  \/ At(t, "ops") /\ More(c) /\ ~IsSub(Op(c))
     /\ Say([e |-> "Call", t |-> t, c |-> c, tag |-> k, sy |-> 1, un |-> IF Op(c) = "u" THEN 1 ELSE 0, sid |-> Sid(Op(c)), kd |-> 0, ln |-> 0, d |-> 0])
     /\ s' = [s EXCEPT !.pc[t] = "send"]
  \/ At(t, "send") /\ Reach(c)
     /\ Say([e |-> "CS", t |-> t, c |-> c, id |-> n, sid |-> Sid(Op(c)), aid |-> 1, ty |-> 0, k |-> k, ln |-> 0, d |-> 0, hl |-> 11, sz |-> 11])
     /\ s' = IF c \in DG THEN [s EXCEPT !.pc[t] = "sent", !.pkt = Append(@, Ask(c))] ELSE [s EXCEPT !.pc[t] = "sent", !.up[c] = Append(@, Ask(c))]
  \/ At(t, "send") /\ ~Reach(c) /\ Say([e |-> "CallR", t |-> t, c |-> c, tag |-> k, r |-> -1, id |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "ops", !.at[c] = n + 1]
  \/ At(t, "sent") /\ Say([e |-> "CallR", t |-> t, c |-> c, tag |-> k, r |-> 0, id |-> n]) /\ s' = [s EXCEPT !.pc[t] = "ops", !.at[c] = n + 1, !.read[c] = @ \cup {n}]
  \/ At(t, "ops") /\ More(c) /\ IsSub(Op(c))
     /\ Say([e |-> "Sub", t |-> t, c |-> c, sid |-> What(Op(c)), un |-> Un(Op(c))]) /\ s' = [s EXCEPT !.pc[t] = "subs"]
  \/ At(t, "subs") /\ Reach(c)
     /\ Say([e |-> "CS", t |-> t, c |-> c, id |-> n, sid |-> 0, aid |-> Un(Op(c)), ty |-> 1, k |-> What(Op(c)), ln |-> 0, d |-> 0, hl |-> 12, sz |-> 12])
     /\ s' = IF c \in DG THEN [s EXCEPT !.pc[t] = "subd", !.pkt = Append(@, Ask(c))] ELSE [s EXCEPT !.pc[t] = "subd", !.up[c] = Append(@, Ask(c))]
  \/ At(t, "subs") /\ ~Reach(c) /\ Say([e |-> "SubR", t |-> t, c |-> c, r |-> -1]) /\ s' = [s EXCEPT !.pc[t] = "ops", !.at[c] = n + 1]
  \/ At(t, "subd") /\ Say([e |-> "SubR", t |-> t, c |-> c, r |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "ops", !.at[c] = n + 1]
  (* all are sent: wait for them *)
  \/ At(t, "ops") /\ ~More(c) /\ s.read[c] # {}
     /\ Say([e |-> "AwB", t |-> t, c |-> c, tags |-> [j \in 1..Cardinality(s.read[c]) |-> Tag(c, CHOOSE x \in s.read[c] : Cardinality({y \in s.read[c] : y < x}) = j - 1)], all |-> 1, as |-> 0])
     /\ s' = [s EXCEPT !.pc[t] = "await"]
  \/ At(t, "ops") /\ ~More(c) /\ s.read[c] = {} /\ Silent /\ s' = [s EXCEPT !.pc[t] = "close"]
ClientAwait(c) ==
  LET t == CT(c) IN
  \/ At(t, "await") /\ s.read[c] \subseteq s.got[c] /\ Say([e |-> "AwE", t |-> t, c |-> c, r |-> 0, er |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "fetch"]
  \/ At(t, "await") /\ ~(s.read[c] \subseteq s.got[c]) /\ s.down[c] # <<>>
     /\ LET m == Head(s.down[c]) IN
        /\ Say([e |-> "CR", t |-> t, c |-> c, id |-> m.id, sid |-> m.sid, aid |-> m.aid, ty |-> m.ty, k |-> m.k, ln |-> 0, d |-> 0, hl |-> 11, sz |-> 11])
        /\ s' = [s EXCEPT !.down[c] = Tail(@), !.pc[t] = IF m.ty = 2 /\ m.sid # 0 THEN "event" ELSE "await",
                          !.got[c] = @ \cup (IF m.ty = 3 THEN {m.id} ELSE IF m.sid = 0 THEN {m.k} ELSE {})]
  (* the connection has ended and nothing is left to be read *)
  \/ At(t, "await") /\ ~(s.read[c] \subseteq s.got[c]) /\ s.down[c] = <<>> /\ s.conn[c] = "shut"
     /\ Say([e |-> "AwE", t |-> t, c |-> c, r |-> -1, er |-> 32]) /\ s' = [s EXCEPT !.pc[t] = "fetch"]
  \/ At(t, "event") /\ t \in DOMAIN srv.evp
     /\ Say([e |-> "Ev", t |-> t, c |-> c, sid |-> srv.evp[t][2], n |-> srv.evp[t][3], ln |-> 0, d |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "await"]
  \/ At(t, "fetch") /\ s.read[c] # {}
     /\ LET n == CHOOSE x \in s.read[c] : TRUE IN Say([e |-> "RsB", t |-> t, c |-> c, tag |-> Tag(c, n)])
     /\ s' = [s EXCEPT !.pc[t] = "fetch2"]
  \/ At(t, "fetch2")
     /\ LET n == CHOOSE x \in s.read[c] : TRUE  k == Tag(c, n)
            st == IF n \notin s.got[c] THEN 0 ELSE IF s.prog[c][n] = "u" THEN -1 ELSE 1 IN
        /\ Say([e |-> "Rs", t |-> t, c |-> c, tag |-> k, st |-> st, rt |-> k + 1000, ln |-> 0, d |-> 0])
        /\ s' = [s EXCEPT !.pc[t] = "fetch", !.read[c] = @ \ {n}]
  \/ At(t, "fetch") /\ s.read[c] = {} /\ Silent /\ s' = [s EXCEPT !.pc[t] = "close"]
Closable == {"ops", "fetch", "close"}
ClientClose(c) ==
  LET t == CT(c) IN
  /\ s.pc[t] \in (IF Leave THEN Closable ELSE {"close"})
  /\ Say([e |-> "CCl", t |-> t, c |-> c]) /\ s' = [s EXCEPT !.pc[t] = "end", !.left[c] = TRUE]

(* ------------------------------------------------------------ locks of the server *)
RLock == ~s.wr
WFree == s.rd = 0 /\ ~s.wr

(* ------------------------------------------------------------ handling a request *)
Fin(t) == IF t # LOOP THEN "idle" ELSE IF s.job[t].c \in DG THEN "pread" ELSE "read"
(* whom the answer to a request goes to: the client of its connection, if that is the one that asked, or the address it came from *)
Answerable(j) == ~s.left[j.c] /\ (j.c \in DG \/ s.tab[j.h] = j.c)
Msg(id, sid, aid, ty, k) == [id |-> id, sid |-> sid, aid |-> aid, ty |-> ty, k |-> k]
SSend(t, c, m) == Say([e |-> "SS", t |-> t, c |-> c, id |-> m.id, sid |-> m.sid, aid |-> m.aid, ty |-> m.ty, k |-> m.k, ln |-> 0, d |-> 0])
Job(t) ==
  LET j == s.job[t] IN
  (* an unknown request *)
  \/ At(t, "job") /\ j.kd = "u" /\ RLock /\ Silent /\ s' = [s EXCEPT !.pc[t] = "note", !.rd = @ + 1]
  \/ At(t, "note") /\ IF Answerable(j)
                      THEN LET m == Msg(0, 0, 2, 2, j.id) IN SSend(t, j.c, m) /\ s' = [s EXCEPT !.pc[t] = "noted", !.down[j.c] = Append(@, m)]
                      ELSE Silent /\ s' = [s EXCEPT !.pc[t] = "noted"]
  \/ At(t, "noted") /\ Silent /\ s' = [s EXCEPT !.pc[t] = Fin(t), !.rd = @ - 1, !.job[t] = <<>>]
  (* a handler *)
  \/ At(t, "job") /\ j.kd # "u"
     /\ Say([e |-> "Inv", t |-> t, c |-> j.c, tag |-> j.k, svc |-> 1, sy |-> 1, ln |-> 0, d |-> 0, kd |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "hand"]
  \/ At(t, "hand") /\ j.kd = "d" /\ Silent /\ s' = [s EXCEPT !.saved = @ \cup {j}, !.pc[t] = Fin(t), !.job[t] = <<>>]
  \/ At(t, "hand") /\ j.kd = "b" /\ Say([e |-> "BB", t |-> t, n |-> j.k, sid |-> 1, ln |-> 0, d |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "block"]
  \/ At(t, "hand") /\ j.kd = "s" /\ Say([e |-> "Shut", t |-> t]) /\ s' = [s EXCEPT !.pc[t] = "hshut"]
  \/ At(t, "hshut") /\ Silent /\ s' = [s EXCEPT !.pc[t] = "hshutr", !.run = IF @ = "running" THEN "req" ELSE @]
  \/ At(t, "hshutr") /\ Say([e |-> "ShutR", t |-> t]) /\ s' = [s EXCEPT !.pc[t] = "answer"]
  \/ At(t, "hand") /\ j.kd = "r" /\ Silent /\ s' = [s EXCEPT !.pc[t] = "answer"]
  (* gracht_server_respond *)
  \/ At(t, "answer") /\ Say([e |-> "RB", t |-> t, tag |-> j.k, rt |-> j.k + 1000, ln |-> 0, d |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "rlock"]
  \/ At(t, "rlock") /\ RLock /\ Silent /\ s' = [s EXCEPT !.pc[t] = "rsend", !.rd = @ + 1]
  \/ At(t, "rsend") /\ IF Answerable(j)
                       THEN LET m == Msg(j.id, 1, 1, 3, j.k + 1000) IN SSend(t, j.c, m) /\ s' = [s EXCEPT !.pc[t] = "runlock", !.down[j.c] = Append(@, m), !.res[t] = 0]
                       ELSE Silent /\ s' = [s EXCEPT !.pc[t] = "runlock", !.res[t] = -1]
  \/ At(t, "runlock") /\ Silent /\ s' = [s EXCEPT !.pc[t] = "rret", !.rd = @ - 1]
  \/ At(t, "rret") /\ Say([e |-> "RR", t |-> t, tag |-> j.k, r |-> s.res[t]]) /\ s' = [s EXCEPT !.pc[t] = Fin(t), !.job[t] = <<>>]
(* gracht_server_broadcast_event *)
Table == {s.tab[h] : h \in {x \in Hs : s.tab[x] # 0}} \cup s.dk
EvNo(t) == IF t = APP THEN 900 + s.casts ELSE s.job[t].k
Broadcast(t) ==
  \/ At(t, "block") /\ RLock /\ Silent /\ s' = [s EXCEPT !.pc[t] = "bsend", !.rd = @ + 1, !.todo[t] = Table]
  \/ At(t, "bsend") /\ s.todo[t] # {}
     /\ LET c == CHOOSE x \in s.todo[t] : TRUE IN
        IF s.subs[c] /\ ~s.left[c]
        THEN LET m == Msg(0, 1, 9, 2, EvNo(t)) IN SSend(t, c, m) /\ s' = [s EXCEPT !.todo[t] = @ \ {c}, !.down[c] = Append(@, m)]
        ELSE Silent /\ s' = [s EXCEPT !.todo[t] = @ \ {c}]
  \/ At(t, "bsend") /\ s.todo[t] = {} /\ Silent /\ s' = [s EXCEPT !.pc[t] = "bret", !.rd = @ - 1]
  \/ At(t, "bret") /\ Say([e |-> "BE", t |-> t]) /\ s' = [s EXCEPT !.pc[t] = IF t = APP THEN "idle" ELSE "answer", !.casts = IF t = APP THEN @ - 1 ELSE @]

(* ------------------------------------------------------------ workers *)
Worker(w) ==
  w \in Workers /\
  \/ At(w, "idle") /\ s.q[w] # <<>> /\ s.run # "down" /\ Silent /\ s' = [s EXCEPT !.job[w] = Head(s.q[w]), !.q[w] = Tail(@), !.pc[w] = "job"]
  \/ At(w, "idle") /\ s.run = "down" /\ Silent /\ s' = [s EXCEPT !.pc[w] = "end", !.q[w] = <<>>]

(* ------------------------------------------------------------ the application *)
AppJob == \/ \E j \in s.saved : s' = [s EXCEPT !.job[APP] = j, !.saved = @ \ {j}, !.pc[APP] = "answer"]
App ==
  \/ At(APP, "idle") /\ s.run # "down" /\ s.saved # {} /\ Silent /\ AppJob
  \/ At(APP, "idle") /\ s.run # "down" /\ s.casts > 0 /\ Say([e |-> "BB", t |-> APP, n |-> EvNo(APP), sid |-> 1, ln |-> 0, d |-> 0]) /\ s' = [s EXCEPT !.pc[APP] = "block"]
  (* gracht_server_send_event *)
  \/ At(APP, "idle") /\ s.run # "down" /\ s.to > 0 /\ \E c \in Cs : (c \in DG \/ s.hand[c] # 0)
     /\ Say([e |-> "TB", t |-> APP, c |-> c, n |-> 800 + s.to, sid |-> 1, ln |-> 0, d |-> 0]) /\ s' = [s EXCEPT !.pc[APP] = "tlock", !.aim = <<c, s.hand[c]>>]
  \/ At(APP, "tlock") /\ RLock /\ Silent /\ s' = [s EXCEPT !.pc[APP] = "tsend", !.rd = @ + 1]
  \/ At(APP, "tsend") /\ LET c == s.aim[1]  x == IF c \in DG THEN (IF c \in s.dk THEN c ELSE 0) ELSE s.tab[s.aim[2]] IN
       IF x # 0 /\ ~s.left[x]
       THEN LET m == Msg(0, 1, 9, 2, 800 + s.to) IN SSend(APP, x, m) /\ s' = [s EXCEPT !.pc[APP] = "tunlock", !.down[x] = Append(@, m), !.res[APP] = 0]
       ELSE Silent /\ s' = [s EXCEPT !.pc[APP] = "tunlock", !.res[APP] = -1]
  \/ At(APP, "tunlock") /\ Silent /\ s' = [s EXCEPT !.pc[APP] = "tret", !.rd = @ - 1]
  \/ At(APP, "tret") /\ Say([e |-> "TE", t |-> APP, r |-> s.res[APP]]) /\ s' = [s EXCEPT !.pc[APP] = "idle", !.to = @ - 1, !.aim = <<0, 0>>]
  \/ At(APP, "idle") /\ AppShut /\ ~s.stop /\ s.run # "down" /\ Say([e |-> "Shut", t |-> APP]) /\ s' = [s EXCEPT !.pc[APP] = "shut", !.stop = TRUE]
  \/ At(APP, "shut") /\ Silent /\ s' = [s EXCEPT !.pc[APP] = "shutr", !.run = IF @ = "running" THEN "req" ELSE @]
  \/ At(APP, "shutr") /\ Say([e |-> "ShutR", t |-> APP]) /\ s' = [s EXCEPT !.pc[APP] = "idle"]
  (* it must not use the server while that is released: the harness keeps it away as well *)

(* ------------------------------------------------------------ the loop *)
Backlog == {c \in Cs : s.conn[c] = "backlog"}
(* A handle names whoever has it. An application that addresses a client on a *)
(* thread of its own must know that it is not given to another in the meantime. *)
Free == {h \in Hs : s.tab[h] = 0 /\ s.aim[2] # h /\ \A c \in Cs : s.hand[c] # h}
PKT == -1
Ready == (IF s.pkt # <<>> THEN {PKT} ELSE {}) \cup (IF Backlog # {} /\ Free # {} THEN {0} ELSE {}) \cup {c \in Cs : s.conn[c] = "open" /\ (s.up[c] # <<>> \/ s.left[c])}
Loop ==
  LET t == LOOP  c == s.cur IN
  \/ At(t, "poll") /\ s.run = "running" /\ Say([e |-> "Poll", t |-> t]) /\ s' = [s EXCEPT !.pc[t] = "wait"]
  \/ At(t, "poll") /\ s.run # "running" /\ Silent /\ s' = [s EXCEPT !.pc[t] = "down"]
  \/ At(t, "wait") /\ \E r \in (SUBSET Ready) \ {{}} : Say([e |-> "Wake", t |-> t, n |-> Cardinality(r)]) /\ s' = [s EXCEPT !.evs = r, !.pc[t] = "next"]
  \/ At(t, "next") /\ s.evs = {} /\ Silent /\ s' = [s EXCEPT !.pc[t] = "poll"]
  \/ At(t, "next") /\ s.evs # {} /\ s.run # "running" /\ Silent /\ s' = [s EXCEPT !.pc[t] = "down"]
  \/ At(t, "next") /\ s.run = "running" /\ \E x \in s.evs :
       Silent /\ s' = [s EXCEPT !.evs = @ \ {x}, !.cur = x,
                                !.pc[t] = IF x = PKT THEN "pread" ELSE IF x = 0 THEN (IF Backlog # {} /\ Free # {} THEN "accept" ELSE "next") ELSE IF s.conn[x] # "open" THEN "next" ELSE "event"]
  (* handle_connection *)
  \/ At(t, "accept") /\ \E x \in Backlog : \E h \in {CHOOSE y \in Free : \A z \in Free : y <= z} :
       Say([e |-> "Acc", t |-> t, c |-> x]) /\ s' = [s EXCEPT !.conn[x] = "open", !.hand[x] = h, !.cur = x, !.pc[t] = "insert"]
  \/ At(t, "insert") /\ WFree /\ Silent /\ s' = [s EXCEPT !.tab[s.hand[c]] = c, !.pc[t] = "report"]
  \/ At(t, "report") /\ Say([e |-> "CbC", t |-> t, c |-> c]) /\ s' = [s EXCEPT !.pc[t] = "next"]
  (* handle_client_event: the peer is gone, or there is something to read *)
  \/ At(t, "event") /\ s.left[c] /\ Silent /\ s' = [s EXCEPT !.pc[t] = "gone"]
  \/ At(t, "event") /\ RLock /\ Silent /\ s' = [s EXCEPT !.pc[t] = "read", !.rd = @ + 1]
  \/ At(t, "read") /\ s.up[c] # <<>>
     /\ LET m == Head(s.up[c])  j == [c |-> c, h |-> s.hand[c], k |-> m.k, id |-> m.id, kd |-> m.kd] IN
        /\ Say([e |-> "SR", t |-> t, c |-> c, id |-> m.id, k |-> IF IsSub(m.kd) THEN What(m.kd) ELSE m.k,
                sid |-> IF IsSub(m.kd) THEN 0 ELSE Sid(m.kd), aid |-> IF IsSub(m.kd) THEN Un(m.kd) ELSE 1])
        /\ s' = [s EXCEPT !.up[c] = Tail(@), !.job[t] = j, !.pc[t] = IF IsSub(m.kd) THEN "control" ELSE IF NW = 0 THEN "job" ELSE "dispatch"]
  \/ At(t, "control") /\ Silent /\ s' = [s EXCEPT !.subs[c] = s.job[t].kd = "+", !.job[t] = <<>>, !.pc[t] = "read"]
  \/ At(t, "dispatch") /\ Silent /\ s' = [s EXCEPT !.q[W(s.rr)] = Append(@, s.job[t]), !.rr = (@ % NW) + 1, !.job[t] = <<>>, !.pc[t] = Fin(t)]
  \/ At(t, "read") /\ s.up[c] = <<>> /\ Silent /\ s' = [s EXCEPT !.rd = @ - 1, !.pc[t] = IF s.left[c] THEN "gone" ELSE "next"]
  (* handle_packet *)
  \/ At(t, "pread") /\ s.pkt # <<>>
     /\ LET m == Head(s.pkt)  j == [c |-> m.c, h |-> 0, k |-> m.k, id |-> m.id, kd |-> m.kd] IN
        /\ Say([e |-> "SR", t |-> t, c |-> m.c, id |-> m.id, k |-> IF IsSub(m.kd) THEN What(m.kd) ELSE m.k,
                sid |-> IF IsSub(m.kd) THEN 0 ELSE Sid(m.kd), aid |-> IF IsSub(m.kd) THEN Un(m.kd) ELSE 1])
        /\ s' = [s EXCEPT !.pkt = Tail(@), !.job[t] = j, !.pc[t] = IF IsSub(m.kd) THEN "pcontrol" ELSE IF NW = 0 THEN "job" ELSE "dispatch"]
  \/ At(t, "pread") /\ s.pkt = <<>> /\ Silent /\ s' = [s EXCEPT !.pc[t] = "next"]
  (* a datagram client exists from its first subscription to the end of all *)
  \/ At(t, "pcontrol") /\ LET j == s.job[t] IN
        IF j.kd = "+" /\ j.c \notin s.dk THEN Silent /\ s' = [s EXCEPT !.pc[t] = "pcreate"]
        ELSE IF j.c \notin s.dk THEN Silent /\ s' = [s EXCEPT !.job[t] = <<>>, !.pc[t] = "pread"]
        ELSE Silent /\ s' = [s EXCEPT !.subs[j.c] = j.kd = "+", !.pc[t] = IF j.kd = "x" THEN "pgone" ELSE "pread", !.job[t] = IF j.kd = "x" THEN @ ELSE <<>>]
  \/ At(t, "pcreate") /\ WFree /\ Silent /\ s' = [s EXCEPT !.dk = @ \cup {s.job[t].c}, !.pc[t] = "preport"]
  \/ At(t, "preport") /\ Say([e |-> "CbC", t |-> t, c |-> s.job[t].c]) /\ s' = [s EXCEPT !.pc[t] = "pcontrol"]
  \/ At(t, "pgone") /\ Say([e |-> "CbD", t |-> t, c |-> s.job[t].c]) /\ s' = [s EXCEPT !.pc[t] = "premove"]
  \/ At(t, "premove") /\ WFree /\ Silent /\ s' = [s EXCEPT !.dk = @ \ {s.job[t].c}, !.job[t] = <<>>, !.pc[t] = "pread"]
  (* client_destroy *)
  \/ At(t, "gone") /\ Say([e |-> "CbD", t |-> t, c |-> c]) /\ s' = [s EXCEPT !.pc[t] = "remove"]
  \/ At(t, "remove") /\ WFree /\ Silent /\ s' = [s EXCEPT !.tab[s.hand[c]] = 0, !.wr = TRUE, !.pc[t] = "closec"]
  \/ At(t, "closec") /\ Say([e |-> "SCl", t |-> t, c |-> c]) /\ s' = [s EXCEPT !.conn[c] = "shut", !.hand[c] = 0, !.up[c] = <<>>, !.wr = FALSE, !.pc[t] = "next"]
  (* gracht_server_shutdown *)
  \/ At(t, "down") /\ s.run # "down" /\ Silent /\ s' = [s EXCEPT !.run = "down"]
  \/ At(t, "down") /\ s.run = "down" /\ (\A w \in Workers : s.pc[w] = "end") /\ s.pc[APP] = "idle" /\ Silent /\ s' = [s EXCEPT !.pc[t] = "clients"]
  \/ At(t, "clients") /\ \E h \in Hs : s.tab[h] # 0 /\ Say([e |-> "SCl", t |-> t, c |-> s.tab[h]])
                                       /\ s' = [s EXCEPT !.conn[s.tab[h]] = "shut", !.hand[s.tab[h]] = 0, !.tab[h] = 0, !.up[s.tab[h]] = <<>>]
  \/ At(t, "clients") /\ (\A h \in Hs : s.tab[h] = 0) /\ Say([e |-> "LCl", t |-> t])
     /\ s' = [s EXCEPT !.pc[t] = "ret", !.conn = [x \in Cs |-> IF s.conn[x] = "backlog" THEN "shut" ELSE s.conn[x]]]
  \/ At(t, "ret") /\ Say([e |-> "LoopR", t |-> t, r |-> 0]) /\ s' = [s EXCEPT !.pc[t] = "end"]

(* ------------------------------------------------------------ rest *)
CRest(c) == s.pc[CT(c)] = "end" \/ (s.pc[CT(c)] = "await" /\ ~(s.read[c] \subseteq s.got[c]) /\ s.down[c] = <<>> /\ s.conn[c] # "shut")
Rest == /\ \A c \in Cs : CRest(c)
        /\ \/ s.pc[LOOP] = "end"
           \/ /\ s.pc[LOOP] = "wait" /\ Ready = {} /\ s.pc[APP] = "idle" /\ s.saved = {} /\ s.casts = 0 /\ (s.to = 0 \/ \A c \in Cs : c \notin DG /\ s.hand[c] = 0)
              /\ \A w \in Workers : s.pc[w] = "idle" /\ s.q[w] = <<>>
Quieten == Rest /\ ~s.quiet /\ Say([e |-> "Quiet", t |-> 0]) /\ s' = [s EXCEPT !.quiet = TRUE]
ServerStep(t) == Job(t) \/ Broadcast(t)
Lib == \/ Loop \/ ServerStep(LOOP)
       \/ \E w \in Workers : Worker(w) \/ ServerStep(w)
       \/ ServerStep(APP) \/ App
Clients == \E c \in Cs : ClientConnect(c) \/ ClientOps(c) \/ ClientAwait(c) \/ ClientClose(c)
Next == Lib \/ Clients \/ Quieten \/ (s.quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
        /\ SF_vars(Loop) /\ SF_vars(App) /\ \A t \in Servers : SF_vars(ServerStep(t)) /\ SF_vars(Worker(t))
        /\ \A c \in Cs : WF_vars(ClientConnect(c)) /\ WF_vars(ClientOps(c)) /\ WF_vars(ClientAwait(c)) /\ WF_vars(ClientClose(c) /\ s.pc[CT(c)] = "close")
        /\ WF_vars(Quieten)

(* ------------------------------------------------------------ properties *)
Good == ok
LockOK == s.rd >= 0 /\ (s.wr => s.rd = 0)
TableOK == \A h \in Hs : s.tab[h] # 0 => s.hand[s.tab[h]] = h /\ s.conn[s.tab[h]] = "open"
SysInv == Good /\ LockOK /\ TableOK
(* whoever waits is released, and a server that was asked to stop and has something to do stops *)
Ends == <>(s.quiet)
Stops == (s.run # "running" /\ s.pc[LOOP] # "wait") ~> s.pc[LOOP] = "end"
=============================================================================
