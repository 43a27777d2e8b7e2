------------------------------- MODULE StackAlg -------------------------------
(* The pool as it is built: an array of `cap` slots with a stack index, guarded *)
(* by a mutex, doubled when it is full.  Every memory access is a step.  TLC   *)
(* checks that it refines Pool for all interleavings within the bounds.        *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Threads, Buffers, Cap0, CapMax
VARIABLES arr, idx, cap, lock, pc, reg, own, op
vars == <<arr, idx, cap, lock, pc, reg, own, op>>
Nil == 0
Idle == [k |-> "idle", b |-> Nil, done |-> FALSE]
Init == /\ arr = [i \in 0..(Cap0 - 1) |-> Nil] /\ idx = 0 /\ cap = Cap0 /\ lock = Nil
        /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> 0]
        /\ own = {} /\ op = [t \in Threads |-> Idle]
pool == { arr[i] : i \in 0..(idx - 1) }
Fresh(b) == /\ b \notin pool \cup own /\ \A t \in Threads : op[t].b # b
            /\ own' = own \cup {b} /\ UNCHANGED <<arr, idx, cap, lock, pc, reg, op>>
PushB(t, b) == pc[t] = "idle" /\ b \in own /\ own' = own \ {b} /\ pc' = [pc EXCEPT ![t] = "ulock"]
               /\ op' = [op EXCEPT ![t] = [k |-> "push", b |-> b, done |-> FALSE]] /\ UNCHANGED <<arr, idx, cap, lock, reg>>
PopB(t) == pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "olock"]
           /\ op' = [op EXCEPT ![t] = [k |-> "pop", b |-> Nil, done |-> FALSE]] /\ UNCHANGED <<arr, idx, cap, lock, reg, own>>
Lock(t, from, to) == pc[t] = from /\ lock = Nil /\ lock' = t /\ pc' = [pc EXCEPT ![t] = to] /\ UNCHANGED <<arr, idx, cap, reg, own, op>>
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
USize(t) == /\ Go(t, "usize", IF idx = cap THEN "ugrow" ELSE "uput") /\ UNCHANGED <<arr, idx, cap, lock, reg, own, op>>
UGrow(t) == /\ Go(t, "ugrow", "uput") /\ cap * 2 <= CapMax /\ cap' = cap * 2
            /\ arr' = [i \in 0..(cap * 2 - 1) |-> IF i < cap THEN arr[i] ELSE Nil] /\ UNCHANGED <<idx, lock, reg, own, op>>
UFail(t) == /\ Go(t, "ugrow", "ufail") /\ UNCHANGED <<arr, idx, cap, lock, reg, own, op>>
UPut(t) == /\ Go(t, "uput", "uinc") /\ arr' = [arr EXCEPT ![idx] = op[t].b] /\ UNCHANGED <<idx, cap, lock, reg, own, op>>
UInc(t) == /\ Go(t, "uinc", "uunl") /\ idx' = idx + 1 /\ op' = [op EXCEPT ![t].done = TRUE] /\ UNCHANGED <<arr, cap, lock, reg, own>>
Unl(t, from, to) == Go(t, from, to) /\ lock = t /\ lock' = Nil /\ UNCHANGED <<arr, idx, cap, reg, own, op>>
UEnd(t) == Go(t, "uret", "idle") /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<arr, idx, cap, lock, reg, own>>
UFEnd(t) == Go(t, "ufret", "idle") /\ own' = own \cup {op[t].b} /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<arr, idx, cap, lock, reg>>
OTake(t) == /\ Go(t, "otake", "ounl")
            /\ IF idx > 0 THEN idx' = idx - 1 /\ op' = [op EXCEPT ![t].b = arr[idx - 1], ![t].done = TRUE]
               ELSE idx' = idx /\ op' = [op EXCEPT ![t].done = TRUE]
            /\ UNCHANGED <<arr, cap, lock, reg, own>>
OEnd(t) == Go(t, "oret", "idle") /\ own' = (IF op[t].b = Nil THEN own ELSE own \cup {op[t].b})
           /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<arr, idx, cap, lock, reg>>
Next == \E t \in Threads : \/ \E b \in Buffers : Fresh(b) \/ PushB(t, b)
    \/ PopB(t) \/ Lock(t, "ulock", "usize") \/ USize(t) \/ UGrow(t) \/ UFail(t) \/ UPut(t) \/ UInc(t)
    \/ Unl(t, "uunl", "uret") \/ UEnd(t) \/ Unl(t, "ufail", "ufret") \/ UFEnd(t)
    \/ Lock(t, "olock", "otake") \/ OTake(t) \/ Unl(t, "ounl", "oret") \/ OEnd(t)
Spec == Init /\ [][Next]_vars
P == INSTANCE Pool
Refines == P!PSpec
Owner == P!OneOwner
=============================================================================
