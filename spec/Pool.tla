--------------------------------- MODULE Pool ---------------------------------
(* The pool of send buffers (P10): a buffer is either in the pool or owned by  *)
(* exactly one taker; whatever was put back can be taken exactly once.         *)
(* Operations of different threads overlap; each takes effect at one moment    *)
(* between its call and its return (the silent step Lin).                      *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Buffers
Nil == 0
VARIABLES pool,    \* buffers in the pool
          own,     \* buffers owned by the users of the pool
          op       \* per thread: idle, or the operation in flight
pvars == <<pool, own, op>>
Idle == [k |-> "idle", b |-> Nil, done |-> FALSE]
PInit == pool = {} /\ own = {} /\ op = [t \in Threads |-> Idle]

Held(t) == IF (op[t].k = "push" /\ ~op[t].done) \/ (op[t].k = "pop" /\ op[t].done /\ op[t].b # Nil) THEN {op[t].b} ELSE {}
Seen == pool \cup own \cup UNION { Held(t) : t \in Threads }
Fresh(b) == b \notin Seen /\ own' = own \cup {b} /\ UNCHANGED <<pool, op>>
PushB(t, b) == /\ op[t].k = "idle" /\ b \in own
               /\ own' = own \ {b}
               /\ op' = [op EXCEPT ![t] = [k |-> "push", b |-> b, done |-> FALSE]]
               /\ UNCHANGED pool
PopB(t) == /\ op[t].k = "idle"
           /\ op' = [op EXCEPT ![t] = [k |-> "pop", b |-> Nil, done |-> FALSE]]
           /\ UNCHANGED <<pool, own>>
Busy(t) == \E u \in Threads \ {t} : op[u].k # "idle"
\* the operation takes effect
Lin(t) == /\ ~op[t].done /\ op[t].k # "idle"
          /\ \/ /\ op[t].k = "push"
                /\ pool' = pool \cup {op[t].b}
                /\ op' = [op EXCEPT ![t].done = TRUE]
             \/ /\ op[t].k = "pop"
                /\ \/ \E b \in pool : pool' = pool \ {b} /\ op' = [op EXCEPT ![t].b = b, ![t].done = TRUE]
                   \/ /\ pool = {} \/ Busy(t)
                      /\ pool' = pool /\ op' = [op EXCEPT ![t].done = TRUE]
          /\ UNCHANGED own
PushE(t, ok) == /\ op[t].k = "push"
                /\ IF ok THEN op[t].done /\ own' = own
                         ELSE ~op[t].done /\ own' = own \cup {op[t].b}   \* refused: still the caller's
                /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED pool
PopE(t, b) == /\ op[t].k = "pop" /\ op[t].done /\ op[t].b = b
              /\ own' = IF b = Nil THEN own ELSE own \cup {b}
              /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED pool
PNext == \E t \in Threads : \/ \E b \in Buffers : Fresh(b) \/ PushB(t, b) \/ PopE(t, b)
                            \/ PopB(t) \/ Lin(t) \/ PopE(t, Nil)
                            \/ PushE(t, TRUE) \/ PushE(t, FALSE)
PSpec == PInit /\ [][PNext]_pvars
\* ----- properties
OneOwner == /\ pool \cap own = {}
            /\ \A t \in Threads : Held(t) \cap (pool \cup own) = {}
            /\ \A t, u \in Threads : t # u => Held(t) \cap Held(u) = {}
NeverLost == [][Seen \subseteq Seen']_pvars
=============================================================================
