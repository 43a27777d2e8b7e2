------------------------------- MODULE ArenaAlg -------------------------------
(* The manager as it is built: a chain of headers, first fit, lazy merging of   *)
(* free headers, splitting above a threshold, extension in place or by moving. *)
(* TLC checks for every operation sequence in small scope that the chain always *)
(* covers the memory exactly, that blocks never overlap, and that the memory is *)
(* whole again once everything has been given back.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,        \* bytes managed
          H,        \* size of a header
          T,        \* splitting threshold of an allocation
          TH,       \* splitting threshold of a trim
          MaxLive, Sizes
VARIABLES ch,       \* the chain: sequence of [len, id, size], id 0 = free
          next      \* next block id
vars == <<ch, next>>
Ids == { ch[i].id : i \in 1..Len(ch) } \ {0}
\* merge the free headers that follow position i into it
RECURSIVE Merge(_, _)
Merge(c, i) == IF i < Len(c) /\ c[i + 1].id = 0
               THEN Merge(SubSeq(c, 1, i - 1) \o <<[c[i] EXCEPT !.len = @ + H + c[i + 1].len]>> \o SubSeq(c, i + 2, Len(c)), i)
               ELSE c
Trim(c, i, n, thr) ==
    LET m == Merge(c, i)
        spill == m[i].len - n
    IN IF spill >= thr
       THEN SubSeq(m, 1, i - 1) \o <<[m[i] EXCEPT !.len = n], [len |-> spill - H, id |-> 0, size |-> 0]>> \o SubSeq(m, i + 1, Len(m))
       ELSE m
RECURSIVE Find(_, _, _)
Find(c, i, n) == IF i > Len(c) THEN [c |-> c, i |-> 0]
                 ELSE IF c[i].id # 0 THEN Find(c, i + 1, n)
                 ELSE LET m == Merge(c, i) IN IF m[i].len >= n THEN [c |-> m, i |-> i] ELSE Find(m, i + 1, n)
Pos(c, b) == CHOOSE i \in 1..Len(c) : c[i].id = b
Init == ch = <<[len |-> N - H, id |-> 0, size |-> 0]>> /\ next = 1
Alloc(n) == /\ Cardinality(Ids) < MaxLive
            /\ LET f == Find(ch, 1, n) IN
               IF f.i = 0 THEN ch' = f.c /\ next' = next
               ELSE ch' = Trim([f.c EXCEPT ![f.i].id = next, ![f.i].size = n], f.i, n, T)
                    /\ next' = (next % MaxLive) + 1
            /\ next \notin Ids
Free(b) == LET i == Pos(ch, b) IN ch' = Merge([ch EXCEPT ![i].id = 0, ![i].size = 0], i) /\ next' = b
Shrink(b, n) == LET i == Pos(ch, b) s == ch[i].size - n IN
                /\ s > 0 /\ ch' = Trim([ch EXCEPT ![i].size = s], i, s, TH) /\ UNCHANGED next
Ext(b, n) ==
    LET i == Pos(ch, b)
        want == ch[i].size + n
        av == Merge(ch, i)[i].len
    IN IF av >= want THEN ch' = Trim([ch EXCEPT ![i].size = want], i, want, T) /\ UNCHANGED next
       ELSE LET f == Find(ch, 1, want) IN
            IF f.i = 0 THEN ch' = f.c /\ UNCHANGED next
            ELSE LET j == Pos(f.c, b)
                     c1 == Merge([f.c EXCEPT ![j].id = 0, ![j].size = 0], j)
                     k  == IF j < f.i THEN f.i - (Len(f.c) - Len(c1)) ELSE f.i
                 IN ch' = Trim([c1 EXCEPT ![k].id = b, ![k].size = want], k, want, T) /\ UNCHANGED next
Next == \/ \E n \in Sizes : Alloc(n)
        \/ \E b \in Ids : Free(b) \/ \E n \in Sizes : Shrink(b, n) \/ Ext(b, n)
Spec == Init /\ [][Next]_vars
RECURSIVE Tot(_, _)
Tot(c, i) == IF i > Len(c) THEN 0 ELSE H + c[i].len + Tot(c, i + 1)
Whole == Tot(ch, 1) = N                              \* the chain covers the memory: blocks are in bounds and disjoint
Room == \A i \in 1..Len(ch) : ch[i].len >= ch[i].size /\ ch[i].len >= 0
Unique == \A i, j \in 1..Len(ch) : i # j => ch[i].id = 0 \/ ch[i].id # ch[j].id
Reclaimed == Ids = {} => Find(ch, 1, N - H).i # 0    \* everything given back: the largest block fits again
\* a move never merges the destination away (the case that would corrupt both)
=============================================================================
