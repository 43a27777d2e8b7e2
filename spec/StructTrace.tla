------------------------------- MODULE StructTrace -----------------------------
EXTENDS Struct, TLC, Json, IOUtils
VARIABLES i, ops
S3 == 1..3
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
Step(o) ==
  CASE o.o = "init" -> Init(o.s, o.t)
    [] o.o = "set" -> Assign(o.s, o.p, o.x[1])
    [] o.o = "arr" -> AssignArray(o.s, o.p, o.x[1])
    [] o.o = "add" -> Add(o.s, o.p, o.n)
    [] o.o = "get" -> Get(o.s, o.p, o.n)
    [] o.o = "choose" -> Choose(o.s, o.p, o.j, o.x[1])
    [] o.o = "clear" -> Clear(o.s, o.p)
    [] o.o = "is" -> Which(o.s, o.p)
    [] o.o = "copy" -> Copy(o.s, o.b)
    [] o.o = "into" -> CopyInto(o.a, o.s, o.p)
    [] o.o = "reset" -> Reset(o.s, o.p)
    [] o.o = "destroy" -> Destroy(o.s)
Clean == i = 1 \/ \A s \in Slots : ~On(s)
TNext ==
  \/ /\ Is("Run") /\ Clean /\ env' = E.desc /\ ops' = E.desc.ops /\ slot' = [s \in Slots |-> Off] /\ res' = {}
  \/ /\ Is("Op") /\ Step(ops[E.i]) /\ ops' = ops
     /\ E.slots = [s \in Slots |-> slot'[s]]
     /\ {E.r[k] : k \in 1..Len(E.r)} = res'
     /\ ((\A s \in Slots : slot'[s].t = 0) => E.live = 0)      \* everything released
     /\ E.shared = 0                                          \* nothing in two places
  \/ /\ Is("End") /\ Clean /\ UNCHANGED <<svars, ops>>
TInit == env = [enums |-> <<>>] /\ slot = [s \in Slots |-> Off] /\ res = {} /\ i = 1 /\ ops = <<>> /\ TLCSet(1, 0)
TSpec == TInit /\ [][TNext]_<<svars, i, ops>>
Progress == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
