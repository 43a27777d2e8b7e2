------------------------------- MODULE RWLockGen -------------------------------
(* Programs for the users of the lock: r read, n nested read (only in programs  *)
(* without writers), w write, b all threads meet while they read                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES prog, mode, step
Kinds == << <<"r", "w", "r", "w">>, <<"r", "w", "w", "w">>, <<"r", "r", "r", "w">>, <<"r", "n", "r", "n">> >>
GInit == prog = [t \in 1..4 |-> <<>>] /\ mode \in 1..4 /\ step = 0
R(S) == IF step >= 0 THEN RandomElement(S) ELSE 0
GNext == \/ /\ step < Depth /\ step' = step + 1 /\ mode' = mode
            /\ \E t \in {R(1..4)}, c \in {R(1..4)} : prog' = [prog EXCEPT ![t] = Append(@, Kinds[mode][c])]
         \/ \* everybody meets inside
            /\ mode = 4 /\ step < Depth /\ step' = step + 1 /\ mode' = mode /\ prog' = [t \in 1..4 |-> Append(prog[t], "b")]
GSpec == GInit /\ [][GNext]_<<prog, mode, step>>
Emit == step < Depth \/ PrintT("@@" \o ToJson(prog))
=============================================================================
