------------------------------- MODULE WorkerGen -------------------------------
(* What a dispatcher may do: bursts of all sizes, waiting until nothing moves,  *)
(* letting others run, releasing a held job, and then destroying the pool.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES ops, len
R(S) == IF Len(ops) >= 0 THEN RandomElement(S) ELSE 0
Steps == << <<"d", 1>>, <<"d", 1>>, <<"d", 2>>, <<"d", 3>>, <<"d", 5>>, <<"d", 12>>, <<"d", 40>>, <<"d", 100>>, <<"q", 0>>, <<"y", 0>>, <<"y", 0>>, <<"r", 0>> >>
GInit == ops = <<>> /\ len \in 1..Depth
GNext == Len(ops) < len /\ \E c \in {R(1..12)} : ops' = Append(ops, Steps[c]) /\ len' = len
GSpec == GInit /\ [][GNext]_<<ops, len>>
Emit == Len(ops) < len \/ PrintT("@@" \o ToJson(ops))
=============================================================================
