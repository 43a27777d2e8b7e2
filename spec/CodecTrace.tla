------------------------------- MODULE CodecTrace ------------------------------
(* Calls and events made with generated code: the bytes on the wire are the    *)
(* ones of the format, and what arrives is what was passed.                    *)
EXTENDS Codec, TLC, Json, IOUtils
VARIABLES i, d, op
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]
Is(t) == i <= Len(Trace) /\ E.e = t /\ i' = i + 1
None == [kind |-> "none"]
Svc == d.svcs[op.s]
IdOf(w) == SubSeq(w, 1, 4)
FnKind(f) == IF f.res = <<>> THEN ASYNC ELSE SYNC
Done == op.kind = "none" \/ (op.kind = "sub" /\ op.c = 1)
     \/ (op.kind = "call" /\ op.c = 1 /\ op.got = 1 /\ (op.fn.res /= <<>> => op.tx = 1 /\ op.res = 1))
     \/ (op.kind = "event" /\ op.tx = 1 /\ op.got = 1)
Begin(k, o) ==
  LET s == d.svcs[o.s] IN
  op' = IF o.o = "call" THEN [kind |-> "call", i |-> k, s |-> o.s, f |-> o.f, fn |-> s.fs[o.f], sid |-> s.sid, o |-> o, c |-> 0, got |-> 0, tx |-> 0, res |-> 0, id |-> <<>>]
        ELSE [kind |-> "event", i |-> k, s |-> o.s, f |-> o.f, fn |-> s.es[o.f], sid |-> s.sid, o |-> o, got |-> 0, tx |-> 0]
TNext ==
  \/ /\ Is("Run") /\ d' = E.desc /\ op' = None
  \/ /\ Is("Sub") /\ Done /\ op' = [kind |-> "sub", sid |-> d.svcs[E.s].sid, on |-> E.on, c |-> 0] /\ d' = d
  \/ /\ Is("Op") /\ Done /\ Begin(E.i, d.ops[E.i]) /\ d' = d
  \/ /\ Is("Tx") /\ E.dir = "c" /\ op.kind = "sub" /\ op.c = 0 /\ op' = [op EXCEPT !.c = 1] /\ d' = d
     /\ E.wire = Frame(IdOf(E.wire), 0, IF op.on = 1 THEN 0 ELSE 1, ASYNC, <<op.sid>>)
  \/ /\ Is("Tx") /\ E.dir = "c" /\ op.kind = "call" /\ op.c = 0
     /\ E.wire = Frame(IdOf(E.wire), op.sid, op.fn.id, FnKind(op.fn), EncAll(d, op.fn.req, op.o.args))
     /\ op' = [op EXCEPT !.c = 1, !.id = IdOf(E.wire)] /\ d' = d
  \/ /\ Is("Got") /\ op.kind = "call" /\ E.ev = 0 /\ op.c = 1 /\ op.got = 0 /\ E.s = op.s /\ E.f = op.f
     /\ E.v = SeeAll(d, op.fn.req, op.o.args)
     /\ op' = [op EXCEPT !.got = 1] /\ d' = d
  \/ /\ Is("Tx") /\ E.dir = "s" /\ op.kind = "call" /\ op.got = 1 /\ op.tx = 0 /\ op.fn.res /= <<>>
     /\ E.wire = Frame(op.id, op.sid, op.fn.id, RESPONSE, EncAll(d, op.fn.res, op.o.res))
     /\ op' = [op EXCEPT !.tx = 1] /\ d' = d
  \/ /\ Is("Res") /\ op.kind = "call" /\ op.tx = 1 /\ op.res = 0 /\ E.st = 1
     /\ E.v = SeeAll(d, op.fn.res, [k \in 1..Len(op.o.res) |-> Cut(op.fn.res[k], op.o.res[k], op.o.room[k])])
     /\ op' = [op EXCEPT !.res = 1] /\ d' = d
  \/ /\ Is("Tx") /\ E.dir = "s" /\ op.kind = "event" /\ op.tx = 0
     /\ E.wire = Frame(IdOf(E.wire), op.sid, op.fn.id, EVENT, EncAll(d, op.fn.ps, op.o.args))
     /\ op' = [op EXCEPT !.tx = 1] /\ d' = d
  \/ /\ Is("Got") /\ op.kind = "event" /\ E.ev = 1 /\ op.tx = 1 /\ op.got = 0 /\ E.s = op.s /\ E.f = op.f
     /\ E.v = SeeAll(d, op.fn.ps, op.o.args)
     /\ op' = [op EXCEPT !.got = 1] /\ d' = d
  \/ /\ Is("Ret") /\ E.r = 0 /\ UNCHANGED <<d, op>>
  \/ /\ Is("End") /\ Done /\ E.leaked = 0 /\ op' = None /\ d' = d
TInit == i = 1 /\ d = [svcs |-> <<>>] /\ op = None /\ TLCSet(1, 0)
TSpec == TInit /\ [][TNext]_<<i, d, op>>
Progress == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
Accepted == LET x == TLCGet(1) IN x > Len(Trace) \/ (PrintT("@REJECTED@ " \o ToString(x)) /\ FALSE)
=============================================================================
