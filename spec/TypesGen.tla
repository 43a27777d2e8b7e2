------------------------------- MODULE TypesGen --------------------------------
(* Random descriptions of types, and random values of them.                    *)
EXTENDS Codec, FiniteSets, TLC
VARIABLES step, env
Rnd(S) == IF step >= 0 THEN RandomElement(S) ELSE 0
Of(s) == s[Rnd(1..Len(s))]
Sc(x, y) == [k |-> "s", n |-> x, w |-> y]
Scalars == <<Sc("uint8", 1), Sc("int8", 1), Sc("uint16", 2), Sc("int16", 2), Sc("uint32", 4), Sc("int32", 4), Sc("uint64", 8), Sc("int64", 8),
             Sc("uint", 4), Sc("int", 4), Sc("long", 8), Sc("ulong", 8), Sc("bool", 1), Sc("float", 4), Sc("double", 8),
             Sc("uint32_t", 4), Sc("int16_t", 2)>>
NE == Len(env.enums)
NS == Len(env.structs)
Str == [k |-> "str"]
RndScalar == Of(Scalars)
RndEnum == [k |-> "e", i |-> Rnd(1..NE)]
RndStruct == [k |-> "t", i |-> Rnd(1..NS)]
\* the type of a parameter or of a member; strings do not come in arrays
RndElem == \* element of an array
  LET c == Rnd(1..6) IN
  IF c <= 3 \/ (c = 4 /\ NE = 0) \/ (c >= 5 /\ NS = 0) THEN RndScalar ELSE IF c = 4 THEN RndEnum ELSE RndStruct
RndType ==
  LET c == Rnd(1..12) IN
  IF c <= 3 THEN RndScalar
  ELSE IF c <= 5 THEN Str
  ELSE IF c = 6 /\ NE > 0 THEN RndEnum
  ELSE IF c \in 7..9 /\ NS > 0 THEN RndStruct
  ELSE IF c \in 10..12 THEN [k |-> "a", of |-> RndElem]
  ELSE RndScalar
\* the entries of a variant are told apart by their types
RECURSIVE RndEntries(_, _)
RndEntries(n, sofar) ==
  IF n = 0 THEN sofar
  ELSE LET c == Rnd(1..5)
           x == IF c <= 2 THEN RndScalar ELSE IF c = 3 THEN Str ELSE IF c = 4 /\ NE > 0 THEN RndEnum ELSE IF c = 5 /\ NS > 0 THEN RndStruct ELSE RndScalar IN
       RndEntries(n - 1, IF \E j \in 1..Len(sofar) : sofar[j] = x THEN sofar ELSE Append(sofar, x))
RndMember ==
  LET c == Rnd(1..20) IN
  IF c <= 2 THEN [k |-> "v", of |-> RndEntries(Rnd(1..4), <<>>)]
  ELSE IF c = 3 THEN [k |-> "a", of |-> [k |-> "t", i |-> NS + 1]]   \* of the structure itself
  ELSE IF c \in 4..5 /\ NS > 0 THEN [k |-> "x", i |-> Rnd(1..NS)]
  ELSE RndType
RECURSIVE RndMembers(_)
RndMembers(n) == IF n = 0 THEN <<>> ELSE Append(RndMembers(n - 1), RndMember)
\* a structure is extended at most once by another (its members would meet)
RECURSIVE Bases(_, _)
Bases(e, ms) == IF ms = <<>> THEN <<>>
                ELSE (IF Head(ms).k = "x" THEN <<Head(ms).i>> \o Bases(e, e.structs[Head(ms).i]) ELSE <<>>) \o Bases(e, Tail(ms))
OneBase(ms) == LET b == Bases(env, ms) IN \A x, y \in 1..Len(b) : x /= y => b[x] /= b[y]
RndStructDef == LET n == Of(<<0, 1, 1, 2, 2, 3, 3, 4, 5, 6>>)  m == RndMembers(n) IN IF OneBase(m) THEN m ELSE <<RndScalar, Str>>
RECURSIVE RndEnumDef(_)
RndEnumDef(n) ==
  IF n = 0 THEN <<>>
  ELSE Append(RndEnumDef(n - 1), [x |-> Rnd(1..2) = 1, v |-> Of(<<0, 1, -1, 5, 127, 128, 255, 256, -128, 65535, 65536, 70000, 2147483600, -2147483600, -7, 1000>>)])
RECURSIVE RndParams(_)
RndParams(n) == IF n = 0 THEN <<>> ELSE Append(RndParams(n - 1), RndType)

(* values *)
Pat == <<0, 1, 127, 128, 255>>
RECURSIVE RndBytes(_, _), Rep(_, _)
Rep(n, x) == IF n = 0 THEN <<>> ELSE Append(Rep(n - 1, x), x)
RndBytes(n, lo) == IF n = 0 THEN <<>> ELSE Append(RndBytes(n - 1, lo), Rnd(lo..255))
RndScalarVal(ty) ==
  LET c == Rnd(1..6)
      b == IF c = 1 THEN Rep(ty.w, 0) ELSE IF c = 2 THEN Rep(ty.w, 255) ELSE IF c = 3 THEN Append(Rep(ty.w - 1, 0), 128) ELSE IF c = 4 THEN Append(Rep(ty.w - 1, 255), 127)
           ELSE RndBytes(ty.w, 0) IN
  IF ty.n \in {"float", "double"} THEN Append(Append(SubSeq(b, 1, ty.w - 2), 33), IF c = 2 THEN 191 ELSE 65) ELSE b   \* a number
RndString == LET c == Rnd(1..10) IN
  IF c = 1 THEN <<>> ELSE IF c = 2 THEN RndBytes(Of(<<63, 64, 127, 128, 200, 255, 256, 300>>), 1) ELSE RndBytes(Rnd(1..14), 1)
RECURSIVE RndVal(_, _), RndVals(_, _), RndEach(_, _, _)
RndVals(ts, d) == IF ts = <<>> THEN <<>> ELSE LET x == RndVal(Head(ts), d) IN <<x>> \o RndVals(Tail(ts), d)
RndEach(ty, n, d) == IF n = 0 THEN <<>> ELSE LET x == RndVal(ty, d) IN <<x>> \o RndEach(ty, n - 1, d)
RndVal(ty, d) ==
  CASE ty.k = "s" -> RndScalarVal(ty)
    [] ty.k = "str" -> RndString
    [] ty.k = "e" -> Rnd(1..Len(env.enums[ty.i]))
    [] ty.k = "t" -> RndVals(Members(env, ty.i), d + 1)
    [] ty.k = "a" -> RndEach(ty.of, IF ty.of.k = "s" /\ Rnd(1..8) = 1 THEN Of(<<17, 64, 100>>)
                                    ELSE IF d = 0 THEN Of(<<0, 1, 1, 2, 3, 4, 7>>) ELSE IF d < 3 THEN Of(<<0, 0, 1, 2>>) ELSE 0, d + 1)
    [] ty.k = "v" -> LET c == Rnd(0..Len(ty.of)) IN IF c = 0 THEN [t |-> 0, v |-> <<>>] ELSE [t |-> c, v |-> RndVal(ty.of[c], d)]
=============================================================================
