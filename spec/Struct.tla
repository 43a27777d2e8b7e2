--------------------------------- MODULE Struct --------------------------------
(* Values of generated structures under the generated helpers: initialise, add *)
(* to an array, index it, choose a variant, clear it, copy, destroy.           *)
(* A slot holds a value of one structure, or nothing. Values are as seen by a  *)
(* receiver (Codec!See): enumerations are numbers. A path names a place in a   *)
(* value: member of a structure, element of an array, content of a variant.    *)
EXTENDS Codec, FiniteSets
CONSTANT Slots
VARIABLES env, slot, res
svars == <<env, slot, res>>
Off == [t |-> 0, v |-> <<>>]
RECURSIVE Zero(_, _), ZeroAll(_, _), Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE Append(Zeros(n - 1), 0)
ZeroAll(e, ts) == IF ts = <<>> THEN <<>> ELSE <<Zero(e, Head(ts))>> \o ZeroAll(e, Tail(ts))
Zero(e, ty) ==
  CASE ty.k = "s" -> Zeros(ty.w)
    [] ty.k = "e" -> 0
    [] ty.k = "t" -> ZeroAll(e, Members(e, ty.i))
    [] ty.k = "v" -> [t |-> 0, v |-> <<>>]
    [] OTHER -> <<>>
St(n) == [k |-> "t", i |-> n]
RECURSIVE TypeAt(_, _, _, _), ValAt(_, _, _, _), Put(_, _, _, _, _), Paths(_, _, _, _), Reps(_, _)
Sub(e, ty, v, k) == IF ty.k = "t" THEN Members(e, ty.i)[k] ELSE IF ty.k = "a" THEN ty.of ELSE ty.of[v.t]
SubV(ty, v, k) == IF ty.k = "v" THEN v.v ELSE v[k]
TypeAt(e, ty, v, p) == IF p = <<>> THEN ty ELSE TypeAt(e, Sub(e, ty, v, Head(p)), SubV(ty, v, Head(p)), Tail(p))
ValAt(e, ty, v, p) == IF p = <<>> THEN v ELSE ValAt(e, Sub(e, ty, v, Head(p)), SubV(ty, v, Head(p)), Tail(p))
Put(e, ty, v, p, x) ==
  IF p = <<>> THEN x
  ELSE LET y == Put(e, Sub(e, ty, v, Head(p)), SubV(ty, v, Head(p)), Tail(p), x) IN
       IF ty.k = "v" THEN [t |-> v.t, v |-> y] ELSE [v EXCEPT ![Head(p)] = y]
Paths(e, ty, v, p) ==
  {p} \cup (CASE ty.k = "t" -> UNION {Paths(e, Members(e, ty.i)[k], v[k], Append(p, k)) : k \in 1..Len(v)}
              [] ty.k = "a" -> IF ty.of.k = "t" THEN UNION {Paths(e, ty.of, v[k], Append(p, k)) : k \in 1..Len(v)} ELSE {}
              [] ty.k = "v" -> IF v.t = 0 THEN {} ELSE Paths(e, ty.of[v.t], v.v, Append(p, v.t))
              [] OTHER -> {})
Reps(n, x) == IF n <= 0 THEN <<>> ELSE Append(Reps(n - 1, x), x)

Ty(s, p) == TypeAt(env, St(slot[s].t), slot[s].v, p)
Va(s, p) == ValAt(env, St(slot[s].t), slot[s].v, p)
Set(s, p, x) == slot' = [slot EXCEPT ![s].v = Put(env, St(slot[s].t), @, p, x)] /\ env' = env
On(s) == slot[s].t /= 0

Init(s, n) == ~On(s) /\ slot' = [slot EXCEPT ![s] = [t |-> n, v |-> Zero(env, St(n))]] /\ res' = {} /\ env' = env
Assign(s, p, x) == On(s) /\ Ty(s, p).k \in {"s", "e", "str"} /\ Set(s, p, See(env, Ty(s, p), x)) /\ res' = {}
AssignArray(s, p, x) == On(s) /\ Ty(s, p).k = "a" /\ Ty(s, p).of.k /= "t" /\ Set(s, p, See(env, Ty(s, p), x)) /\ res' = {}
Add(s, p, n) == On(s) /\ Ty(s, p).k = "a" /\ Ty(s, p).of.k = "t" /\ Set(s, p, Va(s, p) \o Reps(n, Zero(env, Ty(s, p).of))) /\ res' = {}
\* by index, from zero: what is missing up to it is added. The answer is the place of that element
Get(s, p, k) == /\ On(s) /\ Ty(s, p).k = "a" /\ Ty(s, p).of.k = "t"
                /\ Set(s, p, Va(s, p) \o Reps((k + 1) - Len(Va(s, p)), Zero(env, Ty(s, p).of))) /\ res' = {k}
Choose(s, p, j, x) == On(s) /\ Ty(s, p).k = "v" /\ Va(s, p).t = 0 /\ Set(s, p, [t |-> j, v |-> See(env, Ty(s, p).of[j], x)]) /\ res' = {}
Clear(s, p) == On(s) /\ Ty(s, p).k = "v" /\ Set(s, p, [t |-> 0, v |-> <<>>]) /\ res' = {}
Which(s, p) == On(s) /\ Ty(s, p).k = "v" /\ UNCHANGED <<env, slot>> /\ res' = {Va(s, p).t} \ {0}
Copy(a, b) == On(a) /\ ~On(b) /\ slot' = [slot EXCEPT ![b] = slot[a]] /\ res' = {} /\ env' = env
CopyInto(a, s, p) == On(a) /\ On(s) /\ Ty(s, p) = St(slot[a].t) /\ Set(s, p, slot[a].v) /\ res' = {}
Reset(s, p) == On(s) /\ Ty(s, p).k = "t" /\ Set(s, p, Zero(env, Ty(s, p))) /\ res' = {}
Destroy(s) == On(s) /\ slot' = [slot EXCEPT ![s] = Off] /\ res' = {} /\ env' = env
=============================================================================
