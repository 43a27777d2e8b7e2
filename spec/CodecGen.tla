-------------------------------- MODULE CodecGen -------------------------------
(* Descriptions of services with calls and events that exercise them.          *)
EXTENDS TypesGen, Json
VARIABLES plan, svcs, ops
gvars == <<step, env, plan, svcs, ops>>
Ids(s) == {s.fs[j].id : j \in 1..Len(s.fs)} \cup {s.es[j].id : j \in 1..Len(s.es)}
NewId(s) == LET f == {x \in {1, 2, 3, 127, 128, 200, 254, 255} : x \notin Ids(s)} IN IF f = {} THEN Rnd((1..255) \ Ids(s)) ELSE Rnd(f)
Cur == svcs[Len(svcs)]
AddFn == LET r == RndParams(Of(<<0, 1, 1, 2, 2, 3, 4>>)) s == RndParams(Of(<<0, 0, 1, 1, 2, 3>>)) IN
         svcs' = [svcs EXCEPT ![Len(svcs)].fs = Append(@, [id |-> NewId(Cur), req |-> r, res |-> s])]
AddEv == LET r == RndParams(Of(<<0, 1, 1, 2, 3, 4>>)) IN
         svcs' = [svcs EXCEPT ![Len(svcs)].es = Append(@, [id |-> NewId(Cur), ps |-> r])]
Small(ts, vs) == Len(EncAll(env, ts, vs)) < 15000
RECURSIVE Rooms(_, _)
Rooms(ts, vs) == IF ts = <<>> THEN <<>>
  ELSE LET n == IF Head(ts).k \in {"str", "a"} THEN Len(Head(vs)) ELSE 0  c == Rnd(1..4)
           want == IF Head(ts).k = "str" THEN (IF c = 1 THEN 1 + (n \div 2) ELSE IF c = 2 THEN n + 1 ELSE n + 9)
                   ELSE IF c = 1 THEN n \div 2 ELSE IF c = 2 THEN n ELSE n + 3 IN
       <<want>> \o Rooms(Tail(ts), Tail(vs))
OpCall == \E s \in {Rnd(1..Len(svcs))} : \E f \in {Rnd(1..Len(svcs[s].fs))} :
            \E a \in {RndVals(svcs[s].fs[f].req, 0)}, r \in {RndVals(svcs[s].fs[f].res, 0)} :
              \E m \in {Rooms(svcs[s].fs[f].res, r)} :
                IF Small(svcs[s].fs[f].req, a) /\ Small(svcs[s].fs[f].res, r) THEN ops' = Append(ops, [o |-> "call", s |-> s, f |-> f, args |-> a, res |-> r, room |-> m])
                ELSE ops' = ops
OpEvent == \E s \in {Rnd(1..Len(svcs))} :
             IF svcs[s].es = <<>> THEN ops' = ops
             ELSE \E f \in {Rnd(1..Len(svcs[s].es))} : \E a \in {RndVals(svcs[s].es[f].ps, 0)}, x \in {Rnd({TRUE, FALSE})} :
                    IF Small(svcs[s].es[f].ps, a) THEN ops' = Append(ops, [o |-> "event", s |-> s, f |-> f, args |-> a, all |-> x]) ELSE ops' = ops
Stage(n) == n
GNext ==
  /\ step' = step + 1 /\ plan' = plan
  /\ LET a == plan.ne  b == a + plan.ns  c == b + plan.nf  d == c + plan.no IN
     CASE step < a -> env' = [env EXCEPT !.enums = Append(@, RndEnumDef(Rnd(1..5)))] /\ UNCHANGED <<svcs, ops>>
       [] step >= a /\ step < b -> env' = [env EXCEPT !.structs = Append(@, RndStructDef)] /\ UNCHANGED <<svcs, ops>>
       [] step = b -> AddFn /\ UNCHANGED <<env, ops>>
       [] step > b /\ step < c -> /\ UNCHANGED <<env, ops>>
                        /\ (IF plan.two /\ step = b + 4 THEN svcs' = Append(svcs, [sid |-> plan.sid2, fs |-> <<[id |-> 9, req |-> RndParams(2), res |-> RndParams(1)]>>, es |-> <<>>])
                            ELSE IF Rnd(1..3) > 1 THEN AddFn ELSE AddEv)
       [] step >= c /\ step < d -> (IF ops = <<>> \/ Rnd(1..4) > 1 THEN OpCall ELSE OpEvent) /\ UNCHANGED <<env, svcs>>
       [] OTHER -> FALSE
Last == plan.ne + plan.ns + plan.nf + plan.no
GInit == /\ step = 0 /\ env = [enums |-> <<>>, structs |-> <<>>] /\ ops = <<>>
         /\ \E e \in {RandomElement(0..2)}, s \in {RandomElement(0..6)}, f \in {RandomElement(3..9)}, t \in {RandomElement(BOOLEAN)}, i \in {RandomElement({1, 2, 77, 128, 200, 254})} :
              plan = [ne |-> e, ns |-> s, nf |-> f, no |-> 30, two |-> t, sid |-> i, sid2 |-> (i % 254) + 1] /\ svcs = <<[sid |-> i, fs |-> <<>>, es |-> <<>>]>>
GSpec == GInit /\ [][GNext]_gvars
Emit == step < Last \/ PrintT("@@" \o ToJson([enums |-> env.enums, structs |-> env.structs, svcs |-> svcs, ops |-> ops]))
=============================================================================
