------------------------------ MODULE WorkerPool ------------------------------
(* The worker pool as the server sees it (P12): a single dispatcher hands out   *)
(* numbered jobs; every job is executed by one worker once and cleaned up once; *)
(* destroying the pool stops all workers and cleans up what was not executed.  *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Jobs, Workers
VARIABLES st,       \* job -> "new" | "given" | "run" | "ran" | "clean"
          by,       \* worker -> job it is executing (0 = none)
          last,     \* worker -> last job it took
          phase,    \* "live" | "destroying" | "gone"
          held      \* jobs whose execution does not end for now
wvars == <<st, by, last, phase, held>>
WInit == /\ st = [j \in Jobs |-> "new"] /\ by = [w \in Workers |-> 0] /\ last = [w \in Workers |-> 0]
         /\ phase = "live" /\ held = {}
Given == { j \in Jobs : st[j] # "new" }
Dispatch(j) == /\ phase = "live" /\ st[j] = "new" /\ \A k \in Jobs : k < j => st[k] # "new"
               /\ st' = [st EXCEPT ![j] = "given"] /\ UNCHANGED <<by, last, phase, held>>
Exec(j, w) == /\ phase # "gone" /\ st[j] = "given" /\ by[w] = 0
              /\ j > last[w]                     \* a worker takes its jobs in the order given
              /\ st' = [st EXCEPT ![j] = "run"] /\ by' = [by EXCEPT ![w] = j] /\ last' = [last EXCEPT ![w] = j]
              /\ UNCHANGED <<phase, held>>
Hold(j) == st[j] = "run" /\ held' = held \cup {j} /\ UNCHANGED <<st, by, last, phase>>
Release == held' = {} /\ UNCHANGED <<st, by, last, phase>>
ExecEnd(j, w) == /\ st[j] = "run" /\ by[w] = j /\ j \notin held
                 /\ st' = [st EXCEPT ![j] = "ran"] /\ UNCHANGED <<by, last, phase, held>>
\* cleaning up: by the worker that ran it, or of a job that was never executed while the pool is being destroyed
Clean(j, w) == /\ phase # "gone"
               /\ \/ st[j] = "ran" /\ by[w] = j /\ by' = [by EXCEPT ![w] = 0]
                  \/ st[j] = "given" /\ phase = "destroying" /\ by' = by
               /\ st' = [st EXCEPT ![j] = "clean"] /\ UNCHANGED <<last, phase, held>>
Destroy == phase = "live" /\ phase' = "destroying" /\ UNCHANGED <<st, by, last, held>>
Destroyed == /\ phase = "destroying" /\ \A j \in Jobs : st[j] \in {"new", "clean"}
             /\ phase' = "gone" /\ UNCHANGED <<st, by, last, held>>
\* nothing can move any more although nobody holds a job: then everything has been done
Quiet == /\ held = {} => \A j \in Jobs : st[j] \in {"new", "clean"}
         /\ UNCHANGED wvars
WNext == \/ \E j \in Jobs : Dispatch(j) \/ \E w \in Workers : Exec(j, w) \/ ExecEnd(j, w) \/ Clean(j, w)
         \/ Destroy \/ Destroyed
WSpec == WInit /\ [][WNext]_wvars
=============================================================================
