------------------------------ MODULE RWLockAlg ------------------------------
(* include/rwlock.h step by step: a mutex, a reader count and a condition.     *)
(* A writer keeps the mutex while it is inside. Wake-ups may be spurious and a *)
(* signal wakes any one waiter. Checked: refinement of RWLock, exclusion, no   *)
(* deadlock, and that every thread finishes its program.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NR, NW, Rounds
Threads == 1..(NR + NW)
IsR(t) == t <= NR
VARIABLES want, rd, wr, pc, left, mtx, cnt, sleep
vars == <<want, rd, wr, pc, left, mtx, cnt, sleep>>
L == INSTANCE RWLock
Init == /\ L!RWInit /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Rounds] /\ mtx = 0 /\ cnt = 0 /\ sleep = {}
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
A == UNCHANGED <<want, rd, wr>>
I == UNCHANGED <<left, mtx, cnt, sleep>>
Begin(t) == /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<mtx, cnt, sleep>>
            /\ IF IsR(t) THEN Go(t, "idle", "rlock") /\ L!RReq(t) ELSE Go(t, "idle", "wlock") /\ L!WReq(t)
Lock(t, a, b) == Go(t, a, b) /\ mtx = 0 /\ mtx' = t /\ UNCHANGED <<left, cnt, sleep>> /\ A
Unlock(t, a, b) == Go(t, a, b) /\ mtx = t /\ mtx' = 0 /\ UNCHANGED <<left, cnt, sleep>> /\ A
RInc(t) == Go(t, "rinc", "runl") /\ cnt' = cnt + 1 /\ UNCHANGED <<left, mtx, sleep>> /\ A
RIn(t) == Go(t, "rin", "rcs") /\ L!RGot(t) /\ I
ROut(t) == Go(t, "rcs", "rlock2") /\ L!RRel(t) /\ I
RDec(t) == Go(t, "rdec", "rsig") /\ cnt' = cnt - 1 /\ UNCHANGED <<left, mtx, sleep>> /\ A
Wake == IF sleep = {} THEN sleep' = {} ELSE \E x \in sleep : sleep' = sleep \ {x}
RSig(t) == Go(t, "rsig", "runl2") /\ (IF cnt = 0 THEN Wake ELSE UNCHANGED sleep) /\ UNCHANGED <<left, mtx, cnt>> /\ A
WTest(t) == /\ pc[t] = "wtest"
            /\ IF cnt > 0 THEN pc' = [pc EXCEPT ![t] = "wsleep"] /\ sleep' = sleep \cup {t} /\ mtx' = 0
               ELSE pc' = [pc EXCEPT ![t] = "win"] /\ UNCHANGED <<sleep, mtx>>
            /\ UNCHANGED <<left, cnt>> /\ A
WWake(t) == Go(t, "wsleep", "wtest") /\ t \notin sleep /\ mtx = 0 /\ mtx' = t /\ UNCHANGED <<left, cnt, sleep>> /\ A
Spur(t) == t \in sleep /\ sleep' = sleep \ {t} /\ UNCHANGED <<pc, left, mtx, cnt>> /\ A
WIn(t) == Go(t, "win", "wcs") /\ L!WGot(t) /\ I
WOut(t) == Go(t, "wcs", "wunl") /\ L!WRel(t) /\ I
WSig(t) == Go(t, "wsig", "idle") /\ Wake /\ UNCHANGED <<left, mtx, cnt>> /\ A
Step(t) == \/ Begin(t) \/ Lock(t, "rlock", "rinc") \/ RInc(t) \/ Unlock(t, "runl", "rin") \/ RIn(t) \/ ROut(t)
           \/ Lock(t, "rlock2", "rdec") \/ RDec(t) \/ RSig(t) \/ Unlock(t, "runl2", "idle")
           \/ Lock(t, "wlock", "wtest") \/ WTest(t) \/ WWake(t) \/ WIn(t) \/ WOut(t) \/ Unlock(t, "wunl", "wsig") \/ WSig(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t) \/ Spur(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))
Refines == L!RWSpec
Ends == <>Finished
Excl == L!Exclusion
=============================================================================
