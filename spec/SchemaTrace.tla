------------------------------ MODULE SchemaTrace ------------------------------
(* What the generator did with a description, and what is in what it made.     *)
EXTENDS Schema, TLC, Json, IOUtils
VARIABLES i, desc, read, verdict
vars == <<i, desc, read, verdict>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
Set(s) == {s[k] : k \in 1..Len(s)}
Pairs(s) == {<<s[k].n, s[k].v>> : k \in 1..Len(s)}
TNext ==
  \/ Is("Run") /\ desc' = E.desc /\ verdict' = Verdict(E.desc.f) /\ read' = (IF verdict' = "valid" THEN Read(E.desc.f) ELSE <<>>)
  \/ /\ Is("Gen") /\ UNCHANGED <<desc, read, verdict>>
     /\ \/ verdict = "free"
        \/ verdict = "invalid" /\ E.status = 1 /\ E.files = <<>>
        \/ verdict = "valid" /\ E.status = 0 /\ Set(E.files) = Files(read, Set(desc.inc), desc.client, desc.server)
  \/ /\ Is("Header") /\ UNCHANGED <<desc, read, verdict>>
     /\ \/ verdict = "free"
        \/ verdict = "valid" /\ \E k \in Chosen(read, Set(desc.inc)) :
             /\ E.name = Stem(read.svcs[k]) \o ".h"
             /\ Pairs(E.ids) = Identities(read.svcs[k])
             /\ Includes(read.svcs[k]) \subseteq Set(E.includes)
TInit == i = 1 /\ desc = [f |-> <<>>] /\ read = <<>> /\ verdict = "free" /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
