------------------------------- MODULE MapTrace -------------------------------
(* Is what the real table did a behaviour of Map?                              *)
EXTENDS Map, Sequences, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
TInit == MapInit /\ i = 1
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
\* ok: the harness compared every byte of the element with what it stored
TNext ==
  \/ Is("Run") /\ m' = [k \in {} |-> 0] /\ ret' = None
  \/ Is("set") /\ Set(E.k, E.v) /\ E.ok = 1 /\ ret' = E.r
  \/ Is("get") /\ Get(E.k) /\ E.ok = 1 /\ ret' = E.r
  \/ Is("rem") /\ Remove(E.k) /\ E.ok = 1 /\ ret' = E.r
  \/ Is("enum") /\ E.ok = 1 /\ Enum({ <<E.seen[j][1], E.seen[j][2]>> : j \in 1..Len(E.seen) }, Len(E.seen))
  \/ Is("End") /\ E.leaked = 0 /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext]_<<m, ret, i>>
Progress == TLCSet(1, i)
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
