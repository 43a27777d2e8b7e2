-------------------------------- MODULE CodecMC --------------------------------
(* The format itself: over a small universe of types and values, what is read  *)
(* is what was written, whatever follows it, and it is read to its end.        *)
EXTENDS Codec, FiniteSets, TLC
CONSTANTS B, L     \* bytes, longest sequence
VARIABLES t, v
Env == [enums |-> << <<[x |-> FALSE, v |-> 0], [x |-> TRUE, v |-> -2], [x |-> FALSE, v |-> 0]>>, <<[x |-> TRUE, v |-> 2147483647], [x |-> TRUE, v |-> (-2147483647) - 1]>> >>,
        structs |-> << <<[k |-> "s", n |-> "a", w |-> 1], [k |-> "str"]>>,
                       <<[k |-> "x", i |-> 1], [k |-> "v", of |-> <<[k |-> "s", n |-> "a", w |-> 2], [k |-> "str"], [k |-> "e", i |-> 1]>>]>>,
                       <<[k |-> "a", of |-> [k |-> "t", i |-> 3]], [k |-> "s", n |-> "a", w |-> 1]>>,
                       <<>> >>]
Base == {[k |-> "s", n |-> "a", w |-> 1], [k |-> "s", n |-> "a", w |-> 2], [k |-> "str"], [k |-> "e", i |-> 1], [k |-> "e", i |-> 2]}
Structs == {[k |-> "t", i |-> j] : j \in 1..4}
Types == Base \cup Structs \cup {[k |-> "a", of |-> x] : x \in Base \cup Structs}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
RECURSIVE Vals(_, _), ValsAll(_, _)
ValsAll(ts, d) == IF ts = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Vals(Head(ts), d), y \in ValsAll(Tail(ts), d)}
Vals(ty, d) ==
  CASE ty.k = "s" -> [1..ty.w -> B]
    [] ty.k = "str" -> Seqs(B \ {0}, L)
    [] ty.k = "e" -> 1..Len(Env.enums[ty.i])
    [] ty.k = "t" -> ValsAll(Members(Env, ty.i), d)
    [] ty.k = "a" -> IF d = 0 THEN {<<>>} ELSE Seqs(Vals(ty.of, d - 1), L)
    [] ty.k = "v" -> {[t |-> 0, v |-> <<>>]} \cup UNION {{[t |-> j, v |-> x] : x \in Vals(ty.of[j], d)} : j \in 1..Len(ty.of)}
Init == t \in Types /\ v \in Vals(t, 2)
Spec == Init /\ [][FALSE]_<<t, v>>
RoundTrip == \A s \in {<<>>, <<0>>, <<255, 1>>} :
               LET e == Enc(Env, t, v)  r == Dec(Env, t, <<7>> \o e \o s, 2) IN r.v = See(Env, t, v) /\ r.p = Len(e) + 2
Bytes == \A k \in 1..Len(Enc(Env, t, v)) : Enc(Env, t, v)[k] \in Byte
=============================================================================
