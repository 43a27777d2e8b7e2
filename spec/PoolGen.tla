-------------------------------- MODULE PoolGen --------------------------------
(* Programs for the users of the pool: per thread a sequence of               *)
(*   n put a new buffer in   u put a buffer back   o take one                  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES prog, len
Kinds == <<"n", "n", "u", "u", "o", "o", "o">>
GInit == prog = [t \in 1..4 |-> <<>>] /\ len \in 2..Depth
R(S) == IF Len(prog[1]) >= 0 THEN RandomElement(S) ELSE 0
GNext == \E t \in {R(1..4)}, c \in {R(1..7)} :
           /\ Len(prog[1]) + Len(prog[2]) + Len(prog[3]) + Len(prog[4]) < len * 4
           /\ prog' = [prog EXCEPT ![t] = IF Len(@) < len THEN Append(@, Kinds[c]) ELSE @] /\ len' = len
GSpec == GInit /\ [][GNext]_<<prog, len>>
Emit == Len(prog[1]) + Len(prog[2]) + Len(prog[3]) + Len(prog[4]) < len * 2 \/ PrintT("@@" \o ToJson(prog))
=============================================================================
