--------------------------------- MODULE Codec ---------------------------------
(* The wire format: how a value of a described type becomes bytes, and back.   *)
(*                                                                             *)
(* A type is one of                                                            *)
(*   [k |-> "s", n |-> name, w |-> width]   a scalar; its value is its bytes   *)
(*   [k |-> "str"]                          a string; its value is its bytes   *)
(*   [k |-> "e", i |-> n]                   the n-th enumeration; its value is *)
(*                                          the position of an enumerator      *)
(*   [k |-> "t", i |-> n]                   the n-th structure                 *)
(*   [k |-> "a", of |-> type]               an array                           *)
(*   [k |-> "v", of |-> types]              a variant (members of structures)  *)
(*   [k |-> "x", i |-> n]                   an extension (members likewise)    *)
(* Scalars are bytes so that no width is out of TLC's reach.                   *)
EXTENDS Integers, Sequences
Byte == 0..255
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
I32(n) == IF n >= 0 THEN U32(n)
          ELSE LET u == U32((n + 2147483647) + 1) IN <<u[1], u[2], u[3], u[4] + 128>>
ToU32(b) == b[1] + (256 * b[2]) + (65536 * b[3]) + (16777216 * b[4])
ToI32(b) == IF b[4] < 128 THEN ToU32(b) ELSE (ToU32(<<b[1], b[2], b[3], b[4] - 128>>) - 2147483647) - 1
Least(a, b) == IF a < b THEN a ELSE b

(* an enumerator is as given, or follows the one before it *)
RECURSIVE EnumVal(_, _)
EnumVal(en, k) == IF en[k].x THEN en[k].v ELSE IF k = 1 THEN 0 ELSE EnumVal(en, k - 1) + 1

(* the members of a structure, those that it extends in the place of the extension *)
RECURSIVE Flat(_, _)
Flat(env, ms) ==
  IF ms = <<>> THEN <<>>
  ELSE IF Head(ms).k = "x" THEN Flat(env, env.structs[Head(ms).i]) \o Flat(env, Tail(ms))
  ELSE <<Head(ms)>> \o Flat(env, Tail(ms))
Members(env, i) == Flat(env, env.structs[i])

RECURSIVE Enc(_, _, _), EncAll(_, _, _), EncEach(_, _, _)
EncAll(env, ts, vs) == IF ts = <<>> THEN <<>> ELSE Enc(env, Head(ts), Head(vs)) \o EncAll(env, Tail(ts), Tail(vs))
EncEach(env, t, vs) == IF vs = <<>> THEN <<>> ELSE Enc(env, t, Head(vs)) \o EncEach(env, t, Tail(vs))
Enc(env, t, v) ==
  CASE t.k = "s" -> v
    [] t.k = "str" -> U32(Len(v)) \o v \o <<0>>
    [] t.k = "e" -> I32(EnumVal(env.enums[t.i], v))
    [] t.k = "t" -> EncAll(env, Members(env, t.i), v)
    [] t.k = "a" /\ t.of.k = "s" -> U32(Len(v)) \o [j \in 1..(Len(v) * t.of.w) |-> v[((j - 1) \div t.of.w) + 1][((j - 1) % t.of.w) + 1]]
    [] t.k = "a" /\ t.of.k # "s" -> U32(Len(v)) \o EncEach(env, t.of, v)
    [] t.k = "v" -> <<v.t>> \o (IF v.t = 0 THEN <<>> ELSE Enc(env, t.of[v.t], v.v))

(* what the receiver sees: an enumeration as its number, the rest as it was *)
RECURSIVE See(_, _, _), SeeAll(_, _, _), SeeEach(_, _, _)
SeeAll(env, ts, vs) == IF ts = <<>> THEN <<>> ELSE <<See(env, Head(ts), Head(vs))>> \o SeeAll(env, Tail(ts), Tail(vs))
SeeEach(env, t, vs) == IF vs = <<>> THEN <<>> ELSE <<See(env, t, Head(vs))>> \o SeeEach(env, t, Tail(vs))
See(env, t, v) ==
  CASE t.k = "s" -> v
    [] t.k = "str" -> v
    [] t.k = "e" -> EnumVal(env.enums[t.i], v)
    [] t.k = "t" -> SeeAll(env, Members(env, t.i), v)
    [] t.k = "a" -> IF t.of.k = "s" THEN v ELSE SeeEach(env, t.of, v)
    [] t.k = "v" -> IF v.t = 0 THEN [t |-> 0, v |-> <<>>] ELSE [t |-> v.t, v |-> See(env, t.of[v.t], v.v)]

(* reading at position p: [v |-> what is seen, p |-> where the next one starts] *)
RECURSIVE Dec(_, _, _, _), DecAll(_, _, _, _), DecEach(_, _, _, _, _)
DecAll(env, ts, b, p) ==
  IF ts = <<>> THEN [v |-> <<>>, p |-> p]
  ELSE LET h == Dec(env, Head(ts), b, p)  r == DecAll(env, Tail(ts), b, h.p) IN [v |-> <<h.v>> \o r.v, p |-> r.p]
DecEach(env, t, n, b, p) ==
  IF n = 0 THEN [v |-> <<>>, p |-> p]
  ELSE LET h == Dec(env, t, b, p)  r == DecEach(env, t, n - 1, b, h.p) IN [v |-> <<h.v>> \o r.v, p |-> r.p]
Dec(env, t, b, p) ==
  CASE t.k = "s" -> [v |-> SubSeq(b, p, p + t.w - 1), p |-> p + t.w]
    [] t.k = "str" -> LET n == ToU32(SubSeq(b, p, p + 3)) IN [v |-> SubSeq(b, p + 4, p + 3 + n), p |-> p + 5 + n]
    [] t.k = "e" -> [v |-> ToI32(SubSeq(b, p, p + 3)), p |-> p + 4]
    [] t.k = "t" -> DecAll(env, Members(env, t.i), b, p)
    [] t.k = "a" -> DecEach(env, t.of, ToU32(SubSeq(b, p, p + 3)), b, p + 4)
    [] t.k = "v" -> IF b[p] = 0 THEN [v |-> [t |-> 0, v |-> <<>>], p |-> p + 1]
                    ELSE LET r == Dec(env, t.of[b[p]], b, p + 1) IN [v |-> [t |-> b[p], v |-> r.v], p |-> r.p]

(* a result that has less room than the value: it gets what fits, and nothing else changes *)
Cut(t, v, room) ==
  CASE t.k = "str" -> SubSeq(v, 1, Least(Len(v), room - 1))
    [] t.k = "a" -> SubSeq(v, 1, Least(Len(v), room))
    [] OTHER -> v

(* a message: identity and length as four bytes, then service, action and kind *)
SYNC == 0
ASYNC == 1
EVENT == 2
RESPONSE == 3
Frame(id, sid, aid, kind, payload) == id \o U32(11 + Len(payload)) \o <<sid, aid, kind>> \o payload
=============================================================================
