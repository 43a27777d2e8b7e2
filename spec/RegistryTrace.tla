----------------------------- MODULE RegistryTrace -----------------------------
EXTENDS Registry, Sequences, TLC, Json, IOUtils
VARIABLE i
AllSids == 0..255
AllKinds == 0..11
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
TNext ==
  \/ Is("Run") /\ srv' = "none" /\ links' = {} /\ reg' = NoReg /\ cl' = "none" /\ ck' = -1 /\ creg' = [s \in Sids |-> {}] /\ aio' = E.aio /\ res' = 0
  \/ Is("N") /\ Create(E.a, E.r)
  \/ Is("L") /\ AddLink(E.k, E.r)
  \/ Is("P") /\ Register(E.sid, E.v, E.r)
  \/ Is("U") /\ Unregister(E.sid, E.v)
  \/ Is("B") /\ Probe(E.k, E.sid, E.aid, E.got, E.resp, E.note, E.ok)
  \/ Is("H") /\ AioHandle(E.n, E.r)
  \/ Is("S") /\ AskShutdown(E.n)
  \/ Is("G") /\ MainLoop(E.n, E.r)
  \/ Is("E") /\ Event(E.n, E.r, E.pipe, E.fds, E.set)
  \/ Is("C") /\ CCreate(E.k, E.a, E.r)
  \/ Is("K") /\ CConnect(E.n, E.r, E.iod)
  \/ Is("Q") /\ CCall(E.sid, E.aid, E.r, E.got, E.st, E.ok)
  \/ Is("R") /\ CRegister(E.sid, E.v, E.r)
  \/ Is("T") /\ CUnregister(E.sid, E.v)
  \/ Is("V") /\ Broadcast(E.sid, E.r, E.got, E.ok)
  \/ Is("I") /\ Iod(E.n, E.r)
  \/ (Is("W") \/ Is("Z")) /\ Bad(E.r)
  \/ Is("X") /\ CShutdown(E.n)
  \/ Is("End") /\ srv = "none" /\ cl = "none" /\ E.leaked = 0 /\ E.fds = 0 /\ UNCHANGED rvars
TInit == RInit /\ aio = 0 /\ i = 1 /\ TLCSet(1, 0)
TSpec == TInit /\ [][TNext]_<<rvars, i>>
Progress == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
