------------------------------- MODULE Registry -------------------------------
(* What an application may ask of a server and of a client, in which state,    *)
(* and what comes of it: links, protocols, probes by peers, event set, client  *)
(* life. Every operation carries the answer r it got (0 done, -1 refused);     *)
(* a refused operation changes nothing.                                        *)
EXTENDS Integers, FiniteSets
CONSTANTS Sids,      \* service identities, 0 is the control protocol
          Kinds,     \* addresses; Kind % 4: unix stream, inet stream, unix datagram, inet datagram
          MaxLinks
VARIABLES srv,       \* "none", "run", "req" (shutdown asked for)
          links,     \* addresses the server listens at
          reg,       \* protocol registered per identity: 0 none, 1/2 the application's, 3 the library's
          cl,        \* client: "none", "made", "conn", "lost" (its server went away)
          ck,        \* address the client is made for
          creg,      \* protocols the client may use for events of an identity
          aio,       \* does the application provide the event set
          res        \* answer of the last operation
rvars == <<srv, links, reg, cl, ck, creg, aio, res>>
NoReg == [s \in Sids |-> IF s = 0 THEN 3 ELSE 0]
Stream(k) == k % 4 < 2
R(ok) == IF ok THEN 0 ELSE -1
RInit == /\ srv = "none" /\ links = {} /\ reg = NoReg /\ cl = "none" /\ ck = -1 /\ creg = [s \in Sids |-> {}]
         /\ aio \in {0, 1} /\ res = 0
cvars == <<cl, ck, creg, aio>>
svars == <<srv, links, reg, aio>>

Create(a, r) == LET ok == a = 0 IN
  /\ srv = "none" /\ r = R(ok) /\ res' = r
  /\ srv' = (IF ok THEN "run" ELSE srv) /\ links' = (IF ok THEN {} ELSE links) /\ reg' = (IF ok THEN NoReg ELSE reg)
  /\ UNCHANGED cvars
\* k = -1: no link or no server given
AddLink(k, r) == LET ok == srv = "run" /\ k >= 0 /\ Cardinality(links) < MaxLinks /\ k \notin links IN
  /\ r = R(ok) /\ res' = r
  /\ links' = IF ok THEN links \cup {k} ELSE links
  /\ UNCHANGED <<srv, reg, cvars>>
Register(s, v, r) == LET ok == srv = "run" /\ s >= 0 /\ reg[s] = 0 IN
  /\ r = R(ok) /\ res' = r
  /\ reg' = IF ok THEN [reg EXCEPT ![s] = v] ELSE reg
  /\ UNCHANGED <<srv, links, cvars>>
\* removes whatever is registered under that identity
Unregister(s, v) == LET ok == srv = "run" /\ s >= 0 IN
  /\ res' = 0
  /\ reg' = IF ok THEN [reg EXCEPT ![s] = 0] ELSE reg
  /\ UNCHANGED <<srv, links, cvars>>
\* a peer asks action a of service s at address k: got is the protocol whose handler ran (-1: nobody listens), resp the one
\* that answered, note whether the peer was told that there is no such action
Probe(k, s, a, got, resp, note, ok) ==
  /\ srv /= "req"
  /\ IF k \in links
       THEN LET v == IF a = 1 THEN reg[s] ELSE 0 IN got = v /\ resp = v /\ note = (IF v = 0 THEN 1 ELSE 0) /\ ok = 1
       ELSE got <= 0 /\ resp = 0 /\ note = 0
  /\ res' = 0 /\ UNCHANGED <<srv, links, reg, cvars>>
AioHandle(nul, r) == r = R(nul = 0 /\ srv = "run") /\ res' = r /\ UNCHANGED <<srv, links, reg, cvars>>
AskShutdown(nul) == srv' = (IF nul = 0 /\ srv = "run" THEN "req" ELSE srv) /\ res' = 0 /\ UNCHANGED <<links, reg, cvars>>
MainLoop(nul, r) == (nul = 1 \/ srv = "req") /\ r = -1 /\ res' = r /\ UNCHANGED <<srv, links, reg, cvars>>
\* the event after the request takes everything down: only what the application provided or owns stays open
Event(nul, r, pipe, fds, set) ==
  IF nul = 1 THEN r = -1 /\ res' = r /\ set = 1 /\ UNCHANGED <<srv, links, reg, cvars>>
  ELSE /\ srv = "req" /\ r = -1 /\ pipe = 1 /\ set = 1 /\ fds = aio + (IF cl \in {"conn", "lost"} THEN 1 ELSE 0)
       /\ srv' = "none" /\ links' = {} /\ reg' = NoReg /\ cl' = (IF cl = "conn" THEN "lost" ELSE cl) /\ res' = r
       /\ UNCHANGED <<ck, creg, aio>>

CCreate(k, a, r) == LET ok == a \notin 1..3 IN
  /\ cl = "none" /\ r = R(ok) /\ res' = r
  /\ cl' = (IF ok THEN "made" ELSE cl) /\ ck' = (IF ok THEN k ELSE ck) /\ creg' = (IF ok THEN [s \in Sids |-> {}] ELSE creg)
  /\ UNCHANGED svars
\* connecting works once, and only where somebody listens; over inet datagrams nobody can tell
CConnect(nul, r, iod) ==
  /\ res' = r /\ UNCHANGED <<ck, creg, svars>>
  /\ IF nul = 1 THEN r = -1 /\ cl' = cl
     ELSE CASE cl = "made" /\ ck \in links -> r = 0 /\ cl' = (IF srv = "run" THEN "conn" ELSE "lost") /\ iod = 1
            [] cl = "made" /\ ck \notin links -> ((r = -1 /\ cl' = cl /\ iod = 0) \/ (ck % 4 = 3 /\ r = 0 /\ cl' = "lost" /\ iod = 1))
            [] OTHER -> r = -1 /\ cl' = cl /\ iod = 1
\* got: the protocol whose handler ran, st: 1 answered, 2 failed, 0 pending
CCall(s, a, r, got, st, ok) ==
  /\ res' = r /\ UNCHANGED <<cl, ck, creg, svars>>
  /\ CASE cl = "conn" -> LET v == IF a = 1 THEN reg[s] ELSE 0 IN r = 0 /\ got = v /\ st = (IF v = 0 THEN 2 ELSE 1) /\ ok = 1
       [] cl = "made" -> r = -1 /\ got = 0
       [] OTHER -> TRUE
CRegister(s, v, r) == LET ok == s >= 0 IN
  /\ r = R(ok) /\ res' = r
  /\ creg' = IF ok THEN [creg EXCEPT ![s] = IF @ = {} THEN {v} ELSE @ \cup {v}] ELSE creg
  /\ UNCHANGED <<cl, ck, svars>>
CUnregister(s, v) == res' = 0 /\ creg' = (IF s >= 0 THEN [creg EXCEPT ![s] = {}] ELSE creg) /\ UNCHANGED <<cl, ck, svars>>
Broadcast(s, r, got, ok) ==
  /\ srv = "run" /\ r = 0 /\ res' = r /\ UNCHANGED <<cl, ck, creg, svars>>
  /\ CASE cl = "conn" /\ Stream(ck) /\ creg[s] /= {} -> got \in creg[s] /\ ok = 1
       [] cl = "lost" -> TRUE
       [] OTHER -> got = 0
Iod(nul, r) == r = R(nul = 0 /\ cl \in {"conn", "lost"}) /\ res' = r /\ UNCHANGED <<cl, ck, creg, svars>>
Bad(r) == r = -1 /\ res' = r /\ UNCHANGED <<cl, ck, creg, svars>>
CShutdown(nul) == /\ cl' = (IF nul = 1 THEN cl ELSE "none") /\ creg' = (IF nul = 1 THEN creg ELSE [s \in Sids |-> {}])
                  /\ res' = 0 /\ UNCHANGED <<ck, svars>>

RNext ==
  \/ \E a \in 0..2, r \in {0, -1} : Create(a, r)
  \/ \E k \in Kinds \cup {-1}, r \in {0, -1} : AddLink(k, r)
  \/ \E s \in Sids \cup {-1}, v \in 1..2 : (\E r \in {0, -1} : Register(s, v, r)) \/ (s /= 0 /\ Unregister(s, v))
  \/ \E k \in Kinds, s \in Sids \ {0}, a \in 1..2, g \in -1..2, p \in 0..2, n \in 0..1 : Probe(k, s, a, g, p, n, 1)
  \/ \E n \in 0..1 : (\E r \in {0, -1} : AioHandle(n, r) \/ MainLoop(n, r) \/ Iod(n, r) \/ (\E i \in 0..1 : CConnect(n, r, i))
                        \/ (\E f \in 0..2 : Event(n, r, 1, f, 1))) \/ AskShutdown(n) \/ (cl /= "none" /\ CShutdown(n))
  \/ \E k \in Kinds, a \in 0..5, r \in {0, -1} : CCreate(k, a, r)
  \/ cl /= "none" /\ \E s \in (Sids \ {0}) : \E r \in {0, -1}, g \in 0..2, t \in 0..2 : CCall(s, 1, r, g, t, 1)
  \/ cl /= "none" /\ \E s \in (Sids \ {0}) \cup {-1}, v \in 1..2 : (\E r \in {0, -1} : CRegister(s, v, r)) \/ CUnregister(s, v)
  \/ \E s \in Sids \ {0}, g \in 0..2 : Broadcast(s, 0, g, 1)
  \/ Bad(-1)
RSpec == RInit /\ [][RNext]_rvars
TypeOK == /\ srv \in {"none", "run", "req"} /\ links \subseteq Kinds /\ cl \in {"none", "made", "conn", "lost"}
          /\ \A s \in Sids : reg[s] \in 0..3 /\ creg[s] \subseteq {1, 2}
FewLinks == Cardinality(links) <= MaxLinks
Control == reg[0] = 3
Down == srv = "none" => links = {} /\ reg = NoReg /\ cl /= "conn"
\* a refused operation changes nothing - except that the event which takes the server down is answered with an error
RefusedIsNothing == [][res' = -1 => \/ UNCHANGED <<srv, links, reg, cl, ck, creg>> \/ (srv = "req" /\ srv' = "none")]_rvars
FirstStays == [][\A s \in Sids : reg[s] \in {1, 2} /\ reg'[s] /= reg[s] => reg'[s] = 0]_rvars
LinksStay == [][srv' /= "none" => links \subseteq links']_rvars
=============================================================================
