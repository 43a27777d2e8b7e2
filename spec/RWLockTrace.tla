------------------------------ MODULE RWLockTrace ------------------------------
EXTENDS RWLock, Sequences, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
TNext ==
  \/ Is("Run") /\ want' = [t \in Threads |-> "none"] /\ rd' = [t \in Threads |-> 0] /\ wr' = {}
  \/ Is("RReq") /\ RReq(E.t)
  \/ Is("RGot") /\ RGot(E.t)
  \/ Is("RRel") /\ RRel(E.t)
  \/ Is("WReq") /\ WReq(E.t)
  \/ Is("WGot") /\ WGot(E.t)
  \/ Is("WRel") /\ WRel(E.t)
  \/ Is("End") /\ (\A t \in Threads : want[t] = "none" /\ rd[t] = 0) /\ wr = {} /\ UNCHANGED rwvars
TSpec == RWInit /\ i = 1 /\ [][TNext]_<<rwvars, i>>
Progress == TLCSet(1, i)
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
