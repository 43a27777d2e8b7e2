------------------------------- MODULE WorkerAlg -------------------------------
(* The worker pool as it is built: one queue, mutex and two conditions per      *)
(* worker, round robin dispatch that waits for space, shutdown by request.     *)
(* Every lock operation and every signal is a step, wake-ups may be spurious.   *)
(* TLC checks that it refines WorkerPool, that it never gets stuck, and that    *)
(* the pool is always gone in the end.                                         *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS NJ, NW, QCap
Jobs == 1..NJ
Workers == 1..NW
VARIABLES q, lock, state, waitS, waitP,   \* per worker: queue, mutex owner, state, worker waits on signal, dispatcher waits on space
          wpc, wjob, dpc, dj, rr, di,
          st, by, last, phase, held
vars == <<q, lock, state, waitS, waitP, wpc, wjob, dpc, dj, rr, di, st, by, last, phase, held>>
impl == <<q, lock, state, waitS, waitP, wpc, wjob, dpc, dj, rr, di>>
D == 99
P == INSTANCE WorkerPool
Init == /\ q = [w \in Workers |-> <<>>] /\ lock = [w \in Workers |-> 0] /\ state = [w \in Workers |-> "startup"]
        /\ waitS = [w \in Workers |-> FALSE] /\ waitP = [w \in Workers |-> FALSE]
        /\ wpc = [w \in Workers |-> "lock0"] /\ wjob = [w \in Workers |-> 0]
        /\ dpc = "pick" /\ dj = 1 /\ rr = 1 /\ di = 1
        /\ P!WInit
SameA == UNCHANGED <<st, by, last, phase, held>>
WGo(w, from, to) == wpc[w] = from /\ wpc' = [wpc EXCEPT ![w] = to]
WLock(w, from, to) == WGo(w, from, to) /\ lock[w] = 0 /\ lock' = [lock EXCEPT ![w] = w]
                      /\ UNCHANGED <<q, state, waitS, waitP, wjob, dpc, dj, rr, di>> /\ SameA
WStart(w) == WGo(w, "start", "loop") /\ state' = [state EXCEPT ![w] = IF @ = "startup" THEN "alive" ELSE @]
             /\ UNCHANGED <<q, lock, waitS, waitP, wjob, dpc, dj, rr, di>> /\ SameA
WLoop(w) ==
    /\ wpc[w] = "loop"
    /\ IF state[w] = "stop" THEN wpc' = [wpc EXCEPT ![w] = "unlockx"] /\ UNCHANGED <<q, wjob>>
       ELSE IF q[w] = <<>> THEN wpc' = [wpc EXCEPT ![w] = "wait"] /\ UNCHANGED <<q, wjob>>
       ELSE wpc' = [wpc EXCEPT ![w] = "sigspace"] /\ wjob' = [wjob EXCEPT ![w] = Head(q[w])] /\ q' = [q EXCEPT ![w] = Tail(@)]
    /\ UNCHANGED <<lock, state, waitS, waitP, dpc, dj, rr, di>> /\ SameA
WWait(w) == WGo(w, "wait", "waiting") /\ waitS' = [waitS EXCEPT ![w] = TRUE] /\ lock' = [lock EXCEPT ![w] = 0]
            /\ UNCHANGED <<q, state, waitP, wjob, dpc, dj, rr, di>> /\ SameA
\* woken (waitS reset by a signal) or spuriously
WWake(w) == wpc[w] = "waiting" /\ lock[w] = 0 /\ lock' = [lock EXCEPT ![w] = w] /\ wpc' = [wpc EXCEPT ![w] = "loop"]
            /\ ~waitS[w] /\ UNCHANGED <<q, state, waitS, waitP, wjob, dpc, dj, rr, di>> /\ SameA
WSpur(w) == wpc[w] = "waiting" /\ waitS[w] /\ waitS' = [waitS EXCEPT ![w] = FALSE]
            /\ UNCHANGED <<q, lock, state, waitP, wpc, wjob, dpc, dj, rr, di>> /\ SameA
WSigSpace(w) == WGo(w, "sigspace", "unlockj") /\ waitP' = [waitP EXCEPT ![w] = FALSE]
                /\ UNCHANGED <<q, lock, state, waitS, wjob, dpc, dj, rr, di>> /\ SameA
WUnl(w, from, to) == WGo(w, from, to) /\ lock' = [lock EXCEPT ![w] = 0]
                     /\ UNCHANGED <<q, state, waitS, waitP, wjob, dpc, dj, rr, di>> /\ SameA
WExec(w) == WGo(w, "exec", "execd") /\ P!Exec(wjob[w], w) /\ UNCHANGED <<q, lock, state, waitS, waitP, wjob, dpc, dj, rr, di>>
WExecEnd(w) == WGo(w, "execd", "clean") /\ P!ExecEnd(wjob[w], w) /\ UNCHANGED <<q, lock, state, waitS, waitP, wjob, dpc, dj, rr, di>>
WClean(w) == WGo(w, "clean", "lock1") /\ P!Clean(wjob[w], w) /\ UNCHANGED <<q, lock, state, waitS, waitP, wjob, dpc, dj, rr, di>>
WDrain(w) == /\ wpc[w] = "drain"
             /\ IF q[w] = <<>> THEN wpc' = [wpc EXCEPT ![w] = "done"] /\ UNCHANGED q /\ SameA
                ELSE UNCHANGED wpc /\ q' = [q EXCEPT ![w] = Tail(@)] /\ P!Clean(Head(q[w]), w)
             /\ UNCHANGED <<lock, state, waitS, waitP, wjob, dpc, dj, rr, di>>
\* dispatcher
DGo(from, to) == dpc = from /\ dpc' = to
DKeep == UNCHANGED <<wpc, wjob>>
DPick == /\ dpc = "pick"
         /\ IF dj <= NJ THEN dpc' = "dlock" /\ P!Dispatch(dj) ELSE dpc' = "destroy" /\ SameA
         /\ UNCHANGED <<q, lock, state, waitS, waitP, wpc, wjob, dj, rr, di>>
\* the pool may be destroyed at any moment between two dispatches
DStop == dpc = "pick" /\ dj <= NJ /\ dpc' = "destroy" /\ UNCHANGED <<q, lock, state, waitS, waitP, wpc, wjob, dj, rr, di>> /\ SameA
DLock == DGo("dlock", "enq") /\ lock[rr] = 0 /\ lock' = [lock EXCEPT ![rr] = D] /\ UNCHANGED <<q, state, waitS, waitP, dj, rr, di>> /\ DKeep /\ SameA
DEnq == /\ dpc = "enq"
        /\ IF Len(q[rr]) < QCap THEN q' = [q EXCEPT ![rr] = Append(@, dj)] /\ dpc' = "dsig" /\ UNCHANGED <<lock, waitP>>
           ELSE waitP' = [waitP EXCEPT ![rr] = TRUE] /\ lock' = [lock EXCEPT ![rr] = 0] /\ dpc' = "dwait" /\ UNCHANGED q
        /\ UNCHANGED <<state, waitS, dj, rr, di>> /\ DKeep /\ SameA
DWake == DGo("dwait", "enq") /\ ~waitP[rr] /\ lock[rr] = 0 /\ lock' = [lock EXCEPT ![rr] = D]
         /\ UNCHANGED <<q, state, waitS, waitP, dj, rr, di>> /\ DKeep /\ SameA
DSpur == dpc = "dwait" /\ waitP[rr] /\ waitP' = [waitP EXCEPT ![rr] = FALSE]
         /\ UNCHANGED <<q, lock, state, waitS, dpc, dj, rr, di>> /\ DKeep /\ SameA
DSig == DGo("dsig", "dunl") /\ waitS' = [waitS EXCEPT ![rr] = FALSE] /\ UNCHANGED <<q, lock, state, waitP, dj, rr, di>> /\ DKeep /\ SameA
DUnl == DGo("dunl", "pick") /\ lock' = [lock EXCEPT ![rr] = 0] /\ dj' = dj + 1 /\ rr' = (rr % NW) + 1
        /\ UNCHANGED <<q, state, waitS, waitP, di>> /\ DKeep /\ SameA
XBegin == DGo("destroy", "xlock") /\ P!Destroy /\ UNCHANGED <<q, lock, state, waitS, waitP, dj, rr, di>> /\ DKeep
XLock == DGo("xlock", "xreq") /\ lock[di] = 0 /\ lock' = [lock EXCEPT ![di] = D] /\ UNCHANGED <<q, state, waitS, waitP, dj, rr, di>> /\ DKeep /\ SameA
XReq == DGo("xreq", "xsig") /\ state' = [state EXCEPT ![di] = "stop"] /\ UNCHANGED <<q, lock, waitS, waitP, dj, rr, di>> /\ DKeep /\ SameA
XSig == DGo("xsig", "xunl") /\ waitS' = [waitS EXCEPT ![di] = FALSE] /\ UNCHANGED <<q, lock, state, waitP, dj, rr, di>> /\ DKeep /\ SameA
XUnl == DGo("xunl", "xjoin") /\ lock' = [lock EXCEPT ![di] = 0] /\ UNCHANGED <<q, state, waitS, waitP, dj, rr, di>> /\ DKeep /\ SameA
XJoin == /\ dpc = "xjoin" /\ wpc[di] = "done"
         /\ IF di < NW THEN di' = di + 1 /\ dpc' = "xlock" /\ SameA ELSE di' = di /\ dpc' = "end" /\ P!Destroyed
         /\ UNCHANGED <<q, lock, state, waitS, waitP, dj, rr>> /\ DKeep
Worker(w) == \/ WLock(w, "lock0", "start") \/ WStart(w) \/ WLoop(w) \/ WWait(w) \/ WWake(w)
             \/ WSigSpace(w) \/ WUnl(w, "unlockj", "exec") \/ WExec(w) \/ WExecEnd(w) \/ WClean(w)
             \/ WLock(w, "lock1", "loop") \/ WUnl(w, "unlockx", "drain") \/ WDrain(w)
Dispatcher == DPick \/ DStop \/ DLock \/ DEnq \/ DWake \/ DSig \/ DUnl \/ XBegin \/ XLock \/ XReq \/ XSig \/ XUnl \/ XJoin
Done == dpc = "end" /\ UNCHANGED vars
Next == (\E w \in Workers : Worker(w) \/ WSpur(w)) \/ Dispatcher \/ DSpur \/ Done
\* strong fairness: a mutex that is free again and again is obtained in the end
Spec == Init /\ [][Next]_vars /\ SF_vars(Dispatcher) /\ \A w \in Workers : SF_vars(Worker(w))
Refines == P!WSpec
Stops == <>(phase = "gone")
=============================================================================
