------------------------------- MODULE ArenaGen -------------------------------
(* Programs for the users of the arena, per thread:                            *)
(*  <<"a", slot, size>> allocate   <<"x", slot, by>> extend                     *)
(*  <<"s", slot, by>> give back a tail   <<"f", slot, how>> give back           *)
(*  how: 0 = size 0, 1 = exact size, 2 = more than the size                     *)
(* Sizes are in per mille of the memory (or bytes below 100).                   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES ops, style
R(S) == IF Len(ops) >= 0 THEN RandomElement(S) ELSE 0
Sz(s, z) == CASE s = 0 -> z                               \* tiny
              [] s = 1 -> 30 + (z % 100)
              [] s = 2 -> 200 + z
              [] s = 3 -> IF z % 9 = 0 THEN 1000 ELSE IF z % 3 = 0 THEN z ELSE 100 + z * 3
              [] OTHER -> IF z % 2 = 0 THEN z % 40 ELSE 60 + z
GInit == ops = <<>> /\ style \in 0..4
GNext == \E c \in {R(0..19)}, t \in {R(1..3)}, sl \in {R(0..4)}, z \in {R(1..290)}, w \in {R(0..2)}, ns \in {R(0..30)} :
   /\ ops' = Append(ops, IF c < 9 THEN <<"a", t, sl, Sz(style, z)>>
                         ELSE IF c < 12 THEN <<"x", t, sl, Sz(style, z)>>
                         ELSE IF c < 14 THEN <<"s", t, sl, z>>
                         ELSE <<"f", t, sl, w>>)
   /\ style' = IF ns < 5 THEN ns ELSE style
GSpec == GInit /\ [][GNext]_<<ops, style>>
Emit == Len(ops) < Depth \/ PrintT("@@" \o ToJson(ops))
=============================================================================
