------------------------------- MODULE StructGen -------------------------------
EXTENDS TypesGen, Json
VARIABLES slot, res, plan, ops
S == INSTANCE Struct WITH Slots <- 1..3
gvars == <<step, env, slot, res, plan, ops>>
Do(o, A) == ops' = Append(ops, o) /\ A
OnSlots == {s \in 1..3 : slot[s].t /= 0}
OffSlots == (1..3) \ OnSlots
Big == \E s \in OnSlots : Cardinality(S!Paths(env, S!St(slot[s].t), slot[s].v, <<>>)) > 70
OpPath ==
  \E s \in {Rnd(OnSlots)} : \E p \in {Rnd(S!Paths(env, S!St(slot[s].t), slot[s].v, <<>>))} : \E c \in {Rnd(1..6)}, n \in {Of(<<0, 1, 1, 1, 2, 3>>)} :
    LET ty == S!Ty(s, p)  va == S!Va(s, p) IN
    CASE ty.k \in {"s", "e", "str"} -> \E x \in {RndVal(ty, 2)} : Do([o |-> "set", s |-> s, p |-> p, x |-> <<x>>], S!Assign(s, p, x))
      [] ty.k = "a" /\ ty.of.k /= "t" -> \E x \in {RndVal(ty, 0)} : Do([o |-> "arr", s |-> s, p |-> p, x |-> <<x>>], S!AssignArray(s, p, x))
      [] ty.k = "a" /\ ty.of.k = "t" /\ c <= 3 /\ ~Big -> Do([o |-> "add", s |-> s, p |-> p, n |-> n], S!Add(s, p, n))
      [] ty.k = "a" /\ ty.of.k = "t" /\ (c > 3 \/ Big) ->
           \E k \in {IF (Big \/ c = 4) /\ Len(va) > 0 THEN Rnd(0..(Len(va) - 1)) ELSE IF Big THEN 0 ELSE Len(va) + Rnd(0..2)} : Do([o |-> "get", s |-> s, p |-> p, n |-> k], S!Get(s, p, k))
      [] ty.k = "v" /\ c = 1 -> Do([o |-> "is", s |-> s, p |-> p], S!Which(s, p))
      [] ty.k = "v" /\ c > 1 /\ va.t = 0 -> \E j \in {Rnd(1..Len(ty.of))} : \E x \in {RndVal(ty.of[j], 2)} : Do([o |-> "choose", s |-> s, p |-> p, j |-> j, x |-> <<x>>], S!Choose(s, p, j, x))
      [] ty.k = "v" /\ c > 1 /\ va.t /= 0 -> Do([o |-> "clear", s |-> s, p |-> p], S!Clear(s, p))
      [] ty.k = "t" /\ p /= <<>> /\ c <= 2 -> Do([o |-> "reset", s |-> s, p |-> p], S!Reset(s, p))
      [] ty.k = "t" /\ p /= <<>> /\ c > 2 /\ ~Big /\ \E a \in OnSlots : a /= s /\ slot[a].t = ty.i ->
           \E a \in {CHOOSE a \in OnSlots : a /= s /\ slot[a].t = ty.i} : Do([o |-> "into", s |-> s, p |-> p, a |-> a], S!CopyInto(a, s, p))
      [] OTHER -> ops' = ops /\ UNCHANGED <<slot, env, res>>
Op == \E x \in {Rnd(1..24)} :
  CASE OnSlots = {} \/ (x <= 2 /\ OffSlots /= {}) -> \E s \in {Rnd(OffSlots)}, n \in {IF Rnd(1..2) = 1 THEN NS ELSE Rnd(1..NS)} : Do([o |-> "init", s |-> s, t |-> n], S!Init(s, n))
    [] OnSlots /= {} /\ x \in 3..4 /\ OffSlots /= {} -> \E a \in {Rnd(OnSlots)}, b \in {Rnd(OffSlots)} : Do([o |-> "copy", s |-> a, b |-> b], S!Copy(a, b))
    [] OnSlots /= {} /\ x = 5 -> \E a \in {Rnd(OnSlots)} : Do([o |-> "destroy", s |-> a], S!Destroy(a))
    [] OTHER -> OpPath
Finish == \E a \in {CHOOSE a \in OnSlots : TRUE} : Do([o |-> "destroy", s |-> a], S!Destroy(a))
GNext ==
  /\ plan' = plan
  /\ LET a == plan.ne  b == a + plan.ns  c == b + plan.no IN
     CASE step < a -> env' = [env EXCEPT !.enums = Append(@, RndEnumDef(Rnd(1..5)))] /\ UNCHANGED <<slot, res, ops>> /\ step' = step + 1
       [] step >= a /\ step < b -> env' = [env EXCEPT !.structs = Append(@, RndStructDef)] /\ UNCHANGED <<slot, res, ops>> /\ step' = step + 1
       [] step >= b /\ step < c -> Op /\ step' = step + 1
       [] step = c /\ OnSlots /= {} -> Finish /\ step' = step
       [] step = c /\ OnSlots = {} -> step' = step + 1 /\ UNCHANGED <<env, slot, res, ops>>
       [] OTHER -> FALSE
Last == plan.ne + plan.ns + plan.no + 1
GInit == /\ step = 0 /\ env = [enums |-> <<>>, structs |-> <<>>] /\ ops = <<>> /\ slot = [s \in 1..3 |-> S!Off] /\ res = {}
         /\ \E e \in {RandomElement(0..2)}, s \in {RandomElement(1..5)} : plan = [ne |-> e, ns |-> s, no |-> 90]
GSpec == GInit /\ [][GNext]_gvars
Emit == step < Last \/ PrintT("@@" \o ToJson([enums |-> env.enums, structs |-> env.structs, ops |-> ops]))
=============================================================================
