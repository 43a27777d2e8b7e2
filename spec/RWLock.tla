-------------------------------- MODULE RWLock --------------------------------
(* Shared/exclusive lock as its users see it: requests, grants and releases.   *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads
VARIABLES want, rd, wr      \* want[t]: "none","r","w"; rd[t]: read holds; wr: writers inside
rwvars == <<want, rd, wr>>
RWInit == want = [t \in Threads |-> "none"] /\ rd = [t \in Threads |-> 0] /\ wr = {}
Readers == {t \in Threads : rd[t] > 0}
RReq(t) == want[t] = "none" /\ t \notin wr /\ want' = [want EXCEPT ![t] = "r"] /\ UNCHANGED <<rd, wr>>
RGot(t) == want[t] = "r" /\ wr = {} /\ want' = [want EXCEPT ![t] = "none"] /\ rd' = [rd EXCEPT ![t] = @ + 1] /\ UNCHANGED wr
RRel(t) == want[t] = "none" /\ rd[t] > 0 /\ rd' = [rd EXCEPT ![t] = @ - 1] /\ UNCHANGED <<want, wr>>
WReq(t) == want[t] = "none" /\ rd[t] = 0 /\ t \notin wr /\ want' = [want EXCEPT ![t] = "w"] /\ UNCHANGED <<rd, wr>>
WGot(t) == want[t] = "w" /\ wr = {} /\ Readers = {} /\ want' = [want EXCEPT ![t] = "none"] /\ wr' = {t} /\ UNCHANGED rd
WRel(t) == t \in wr /\ wr' = wr \ {t} /\ UNCHANGED <<want, rd>>
RWNext == \E t \in Threads : RReq(t) \/ RGot(t) \/ RRel(t) \/ WReq(t) \/ WGot(t) \/ WRel(t)
RWSpec == RWInit /\ [][RWNext]_rwvars
Exclusion == Cardinality(wr) <= 1 /\ (wr # {} => Readers = {})
=============================================================================
