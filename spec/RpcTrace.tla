------------------------------ MODULE RpcTrace ------------------------------
(* Judges a recorded trace of the real library: is it a behaviour of Rpc?      *)
EXTENDS Rpc, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
CheckSet == IF IOEnv.CHECK = "all" THEN {"P01","P02","P03","P04","P05","P06","P07","P08","P10","P13","P17","P18","P20"} ELSE {IOEnv.CHECK}
E == Trace[i]
TNext == i <= Len(Trace) /\ i' = i + 1 /\ Do(E)
TSpec == RpcInit /\ i = 1 /\ [][TNext]_<<rpcvars, i>>
Progress == TLCSet(1, i)
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
