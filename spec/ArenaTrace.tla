------------------------------ MODULE ArenaTrace ------------------------------
EXTENDS Arena, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
\* ok = 1: the owner found every byte of its block as it had left it
TNext ==
  \/ Is("Run") /\ live' = None /\ moving' = None /\ pend' = 0 /\ cap' = 0 /\ total' = E.total
  \/ Is("Cap") /\ cap = 0 /\ E.cap > 0 /\ cap' = E.cap /\ UNCHANGED <<live, moving, pend, total>>
  \/ Is("AllocB") /\ Begin
  \/ Is("AllocE") /\ E.ok = 1 /\ (IF E.got = 1 THEN AllocOk(E.b, E.o, E.n) ELSE AllocNo(E.n))
  \/ Is("ExtB") /\ E.ok = 1 /\ ExtB(E.b)
  \/ Is("ExtE") /\ E.ok = 1 /\ (IF E.got = 1 THEN ExtOk(E.b, E.o, E.n, E.by) ELSE ExtNo(E.b))
  \/ Is("FreeB") /\ E.ok = 1 /\ FreeB(E.b, E.by)
  \/ Is("FreeE") /\ FreeE
  \/ Is("End") /\ E.leaked = 0 /\ live = None /\ UNCHANGED avars
TSpec == AInit /\ i = 1 /\ [][TNext]_<<avars, i>>
Progress == TLCSet(1, i)
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
