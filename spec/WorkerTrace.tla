------------------------------ MODULE WorkerTrace ------------------------------
EXTENDS WorkerPool, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
Skip == UNCHANGED wvars
TNext ==
  \/ Is("Run") /\ st' = [j \in 1..E.jobs |-> "new"] /\ by' = [w \in Workers |-> 0] /\ last' = [w \in Workers |-> 0]
               /\ phase' = "live" /\ held' = {}
  \/ Is("Disp") /\ E.j \in DOMAIN st /\ phase = "live" /\ st[E.j] = "new" /\ st' = [st EXCEPT ![E.j] = "given"] /\ UNCHANGED <<by, last, phase, held>>
  \/ Is("DispR") /\ Skip
  \/ Is("Exec") /\ E.j \in DOMAIN st /\ E.ok = 1 /\ Exec(E.j, E.w)
  \/ Is("Hold") /\ Hold(E.j)
  \/ Is("Release") /\ Release
  \/ Is("ExecEnd") /\ ExecEnd(E.j, E.w)
  \/ Is("Clean") /\ E.j \in DOMAIN st /\ Clean(E.j, E.w)
  \/ Is("Destroy") /\ Destroy
  \/ Is("Destroyed") /\ phase = "destroying" /\ (\A j \in DOMAIN st : st[j] \in {"new", "clean"})
                     /\ phase' = "gone" /\ UNCHANGED <<st, by, last, held>>
  \/ Is("Quiet") /\ (held = {} => \A j \in DOMAIN st : st[j] \in {"new", "clean"}) /\ Skip
  \/ Is("End") /\ E.leaked = 0 /\ phase = "gone" /\ Skip
TInit == /\ st = <<>> /\ by = [w \in Workers |-> 0] /\ last = [w \in Workers |-> 0] /\ phase = "gone" /\ held = {} /\ i = 1
TSpec == TInit /\ [][TNext]_<<wvars, i>>
Progress == TLCSet(1, i)
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
