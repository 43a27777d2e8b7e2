--------------------------------- MODULE Arena ---------------------------------
(* The receive memory manager as its users see it (P09).  A block is live from *)
(* the moment it has been handed out until its owner starts to give it back.   *)
(* Offsets are relative to the lowest address ever handed out, so they may be  *)
(* negative or positive; the size of the managed memory bounds their spread.   *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES live,     \* block id -> [o: offset, n: usable bytes]
          moving,   \* block id -> [o, n]: an extension is in flight
          pend,     \* number of operations in flight
          cap,      \* largest block that fits into the empty arena
          total     \* size of the managed memory
avars == <<live, moving, pend, cap, total>>
None == [x \in {} |-> 0]
AInit == live = None /\ moving = None /\ pend = 0 /\ cap = 0 /\ total = 0
Put(f, b, v) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN v ELSE f[x]]
Del(f, b) == [x \in DOMAIN f \ {b} |-> f[x]]
Disjoint(a, b) == a.o + a.n <= b.o \/ b.o + b.n <= a.o
InBounds(a, f) == \A b \in DOMAIN f : (a.o + a.n) - f[b].o <= total /\ (f[b].o + f[b].n) - a.o <= total
Fits(a, f) == a.n <= total /\ InBounds(a, f) /\ \A b \in DOMAIN f : Disjoint(a, f[b])
\* bytes that are certainly in use
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN f[b].n + Sum(f, S \ {b})
InUse == Sum(live, DOMAIN live)

Begin == pend' = pend + 1 /\ UNCHANGED <<live, moving, cap, total>>
AllocOk(b, o, n) == /\ b \notin DOMAIN live \cup DOMAIN moving /\ n > 0
                    /\ Fits([o |-> o, n |-> n], live)
                    /\ live' = Put(live, b, [o |-> o, n |-> n])
                    /\ pend' = pend - 1 /\ UNCHANGED <<moving, cap, total>>
\* a request is only refused when it need not fit
AllocNo(n) == /\ ~(live = None /\ moving = None /\ pend = 1 /\ n <= cap /\ n > 0)
              /\ pend' = pend - 1 /\ UNCHANGED <<live, moving, cap, total>>
ExtB(b) == /\ b \in DOMAIN live
           /\ moving' = Put(moving, b, live[b]) /\ live' = Del(live, b)
           /\ pend' = pend + 1 /\ UNCHANGED <<cap, total>>
ExtOk(b, o, n, by) ==  /\ b \in DOMAIN moving /\ n = moving[b].n + by
                       /\ Fits([o |-> o, n |-> n], live)
                       /\ live' = Put(live, b, [o |-> o, n |-> n]) /\ moving' = Del(moving, b)
                       /\ pend' = pend - 1 /\ UNCHANGED <<cap, total>>
ExtNo(b) == /\ b \in DOMAIN moving
            /\ Fits(moving[b], live)      \* refused: the block is what it was
            /\ live' = Put(live, b, moving[b]) /\ moving' = Del(moving, b)
            /\ pend' = pend - 1 /\ UNCHANGED <<cap, total>>
\* giving back the tail (by < n) or everything (by = 0 or by >= n)
FreeB(b, by) == /\ b \in DOMAIN live
                /\ live' = IF by = 0 \/ by >= live[b].n THEN Del(live, b)
                           ELSE Put(live, b, [live[b] EXCEPT !.n = @ - by])
                /\ pend' = pend + 1 /\ UNCHANGED <<moving, cap, total>>
FreeE == pend' = pend - 1 /\ UNCHANGED <<live, moving, cap, total>>
Exclusive == \A a, b \in DOMAIN live : a # b => Disjoint(live[a], live[b])
=============================================================================
