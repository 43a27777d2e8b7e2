------------------------------- MODULE PoolTrace -------------------------------
(* Is what the real pool did a behaviour of Pool, for some choice of the       *)
(* moments at which the overlapping operations took effect?                    *)
EXTENDS Pool, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
TInit == PInit /\ i = 1
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
TNext ==
  \/ Is("Run") /\ pool' = {} /\ own' = {} /\ op' = [t \in Threads |-> Idle]
  \/ Is("Fresh") /\ Fresh(E.b)
  \/ Is("PushB") /\ PushB(E.t, E.b)
  \/ Is("PushE") /\ PushE(E.t, E.ok = 1)
  \/ Is("PopB") /\ PopB(E.t)
  \/ Is("PopE") /\ PopE(E.t, E.b)
  \* everything was drained one by one: nothing is left behind, and nothing leaked
  \/ Is("End") /\ pool = {} /\ (\A t \in Threads : op[t] = Idle) /\ E.leaked = 0 /\ E.n = Cardinality(own) /\ UNCHANGED pvars
  \* an operation only has to take effect when the next event asks for it
  \/ i <= Len(Trace) /\ E.e \in {"PushE", "PopE"} /\ i' = i /\ \E t \in Threads : Lin(t)
TSpec == TInit /\ [][TNext]_<<pvars, i>>
Progress == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
TInit2 == TInit /\ TLCSet(1, 0)
TSpec2 == TInit2 /\ [][TNext]_<<pvars, i>>
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
