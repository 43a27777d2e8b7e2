------------------------------- MODULE HashTable -------------------------------
(* The table as it is built: open addressing with robin-hood probing, growth   *)
(* and shrinkage on entry, backward shifting on removal.  TLC checks that the  *)
(* algorithm refines Map for every hash function and every operation sequence  *)
(* within the bounds (all collisions, wrap-around, growth, shrinkage).         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, MinCap, GrowPct, ShrinkPct, MaxHash, MaxCap
VARIABLES hash,   \* the hash function: Keys -> 0..MaxHash, chosen once
          cap, slots, count, ret
vars == <<hash, cap, slots, count, ret>>
None == -1
Empty == [p |-> 0]
Free(c) == [i \in 0..(c - 1) |-> Empty]
Grow(c) == (c * GrowPct) \div 100
Shrink(c) == (c * ShrinkPct) \div 100

\* insert element e at index i, returns [s, c, r]
RECURSIVE Ins(_, _, _, _, _)
Ins(s, c, e, i, n) ==
    LET cur == s[i] IN
    IF cur.p = 0 THEN [s |-> [s EXCEPT ![i] = e], n |-> n + 1, r |-> None]
    ELSE IF cur.k = e.k THEN [s |-> [s EXCEPT ![i] = e], n |-> n, r |-> cur.v]
    ELSE LET sw  == cur.p < e.p
             s2  == IF sw THEN [s EXCEPT ![i] = e] ELSE s
             e2  == IF sw THEN cur ELSE e
         IN Ins(s2, c, [e2 EXCEPT !.p = @ + 1], (i + 1) % c, n)

InsKey(s, c, k, v, n) == Ins(s, c, [p |-> 1, k |-> k, v |-> v], hash[k] % c, n)

RECURSIVE Rehash(_, _, _, _, _, _)
Rehash(old, oc, i, s, c, n) ==
    IF i = oc THEN s
    ELSE IF old[i].p = 0 THEN Rehash(old, oc, i + 1, s, c, n)
    ELSE LET x == InsKey(s, c, old[i].k, old[i].v, n) IN Rehash(old, oc, i + 1, x.s, c, x.n)

Resized(c) == IF c < MinCap THEN [s |-> slots, c |-> cap] ELSE [s |-> Rehash(slots, cap, 0, Free(c), c, 0), c |-> c]

RECURSIVE Find(_, _, _, _)
Find(s, c, k, i) == IF s[i].p = 0 THEN None ELSE IF s[i].k = k THEN i ELSE Find(s, c, k, (i + 1) % c)

RECURSIVE Bump(_, _, _, _)
Bump(s, c, prev, i) ==
    IF s[i].p <= 1 THEN [s EXCEPT ![prev] = Empty]
    ELSE Bump([s EXCEPT ![prev] = [s[i] EXCEPT !.p = @ - 1]], c, i, (i + 1) % c)

Init == /\ hash \in [Keys -> 0..MaxHash]
        /\ cap = MinCap /\ slots = Free(MinCap) /\ count = 0 /\ ret = None
Set(k, v) ==
    LET z == IF count = Grow(cap) THEN Resized(cap * 2) ELSE [s |-> slots, c |-> cap]
        x == InsKey(z.s, z.c, k, v, count)
    IN /\ z.c <= MaxCap
       /\ slots' = x.s /\ cap' = z.c /\ count' = x.n /\ ret' = x.r /\ UNCHANGED hash
Get(k) == /\ ret' = LET i == Find(slots, cap, k, hash[k] % cap) IN IF i = None THEN None ELSE slots[i].v
          /\ UNCHANGED <<hash, cap, slots, count>>
Remove(k) ==
    LET z == IF count = Shrink(cap) THEN Resized(cap \div 2) ELSE [s |-> slots, c |-> cap]
        i == Find(z.s, z.c, k, hash[k] % z.c)
    IN /\ cap' = z.c /\ UNCHANGED hash
       /\ IF i = None THEN slots' = z.s /\ count' = count /\ ret' = None
          ELSE slots' = Bump(z.s, z.c, i, (i + 1) % z.c) /\ count' = count - 1 /\ ret' = z.s[i].v
Next == \E k \in Keys : (\E v \in Vals : Set(k, v)) \/ Get(k) \/ Remove(k)
Spec == Init /\ [][Next]_vars

Used == { i \in 0..(cap - 1) : slots[i].p # 0 }
mbar == [k \in { slots[i].k : i \in Used } |-> LET i == CHOOSE i \in Used : slots[i].k = k IN slots[i].v]
M == INSTANCE Map WITH m <- mbar, ret <- ret
Refines == M!MapSpec
\* enumeration visits every element once: one slot per key, and the count is right
OneSlot == Cardinality(Used) = count /\ Cardinality({ slots[i].k : i \in Used }) = count
ProbeOK == \A i \in Used : slots[i].p = ((i - (hash[slots[i].k] % cap) + cap) % cap) + 1
RoomLeft == count < cap
=============================================================================
