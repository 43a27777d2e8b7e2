------------------------------- MODULE SchemaGen -------------------------------
(* Random descriptions over several files, item by item in the order of the    *)
(* text, with faults: wrong identities, unknown or late types, lost files, and *)
(* tokens that were deleted, doubled, swapped or replaced.                     *)
EXTENDS Schema, TLC, Json
VARIABLES step, F, stack, g, plan, muts
\* g: names in use; F: the files; stack: files being written, the last one now
vars == <<step, F, stack, g, plan, muts>>
Rnd(S) == IF step >= 0 THEN RandomElement(S) ELSE 0
Of(s) == s[Rnd(1..Len(s))]
K(s) == [k |-> "kw", s |-> s]
P(s) == [k |-> "p", s |-> s]
I(s, w) == [k |-> "id", s |-> s, w |-> w]
N(v) == [k |-> "n", v |-> v]
Q(s, f) == [k |-> "q", s |-> s, f |-> f]
Members == <<"a", "b", "c", "d", "e">>
Noisy == plan.noise > 0 /\ Rnd(1..plan.noise) = 1
RefOf(n) == I(n, IF Rnd(1..6) = 1 THEN Rnd(0..2) ELSE 0)
BuiltinTok == I(Of(<<"uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint", "int", "long", "ulong", "bool", "string", "float", "double">>), 0)
Ref ==
  IF Noisy THEN Of(<<I("ghost", 0), I("uint8", 2), I("int", 1), I("shape", 1), I("tree", 0), I("size_t", 0), I("string", 2), I("kind", 2), I("char", 0)>>)
  ELSE LET c == Rnd(1..5)  S == g.enums \cup g.structs \cup g.types IN IF c <= 2 \/ S = {} THEN BuiltinTok ELSE RefOf(Rnd(S))
TypeToks == LET r == Ref IN IF Rnd(1..4) = 1 /\ r.s /= "string" THEN <<r, P("["), P("]")>> ELSE <<r>>
RECURSIVE ParamToks(_, _), EnumToks(_, _), EntryToks(_, _), StructToks(_, _, _)
ParamToks(n, j) == IF j > n THEN <<>> ELSE TypeToks \o <<I(Members[j], 0)>> \o (IF j < n THEN <<P(",")>> ELSE <<>>) \o ParamToks(n, j + 1)
List(n) == <<P("(")>> \o ParamToks(n, 1) \o <<P(")")>>
Num(n) == Of(<<0, 1, -1, 7, 255, 256, 65536, 2147483600>>)
EnumToks(n, j) == IF j > n THEN <<>> ELSE <<I(Members[j], 0)>> \o (IF Rnd(1..2) = 1 THEN <<P("="), N(Num(j))>> ELSE <<>>) \o (IF j < n THEN <<P(",")>> ELSE <<>>) \o EnumToks(n, j + 1)
EntryToks(n, j) == IF j > n THEN <<>> ELSE <<Ref, I(Members[j], 0), P(";")>> \o EntryToks(n, j + 1)
\* extends: structures that may be extended here
StructToks(n, j, self) ==
  IF j > n THEN <<>>
  ELSE LET c == Rnd(1..8) IN
       (IF c = 1 THEN <<K("variant"), I(Members[j], 0), P("{")>> \o EntryToks(Rnd(1..3), 1) \o <<P("}")>>
        ELSE IF c = 2 /\ j = 1 /\ (g.structs /= {} \/ Noisy) THEN
               <<IF Noisy \/ g.structs = {} THEN Of(<<I("ghost", 0), I("color", 0), I("uint8", 0), I(self, 0), I("shape", 0), I("node", 0)>>) ELSE RefOf(Rnd(g.structs)), P(";")>>
        ELSE IF c = 3 THEN <<I(self, 0), P("["), P("]"), I(Members[j], 0), P(";")>>
        ELSE TypeToks \o <<I(Members[j], 0), P(";")>>) \o StructToks(n, j + 1, self)
IdTok(used) == IF Noisy THEN N(Of(<<0, 256, -1, 255, 1, 1000, 2>>)) ELSE LET f == {1, 2, 3, 127, 128, 200, 254, 255} \ used IN N(IF f = {} THEN Rnd((1..255) \ used) ELSE Rnd(f))
RECURSIVE Body(_, _, _)
Body(n, j, used) ==
  IF j > n THEN <<>>
  ELSE LET id == IdTok(used)
           c == Rnd(1..5)
           fn == <<"get", "put", "run", "halt", "list">>[j]
           ev == <<"done", "moved", "lost", "list", "run">>[j]
           t == IF c <= 3 THEN <<K("func"), I(fn, Rnd(0..2))>> \o List(Rnd(0..3)) \o <<P(":")>> \o List(Of(<<0, 1, 2>>)) \o <<P("="), id, P(";")>>
                ELSE IF c = 4 THEN <<K("event"), I(ev, Rnd(0..2)), P(":")>> \o List(Rnd(0..3)) \o <<P("="), id, P(";")>>
                ELSE <<K("event"), I(ev, 0), P(":"), Ref, P("="), id, P(";")>> IN
       t \o Body(n, j + 1, used \cup {id.v})
Now == stack[Len(stack)]
Write(ts) == F' = [F EXCEPT ![Now] = @ \o ts]
Left(used, all) == all \ used
AllE == {"color", "mode", "kind"}
AllS == {"point", "shape", "item", "node", "tree"}
AllT == {"uint32_t", "size_t", "pid_t"}
HeaderOf(n) == CASE n = "size_t" -> "stddef.h" [] n = "pid_t" -> "sys/types.h" [] OTHER -> "stdint.h"
AllV == {"alpha", "beta", "gamma", "delta"}
Item ==
  \E c \in {Rnd(1..18)} :
  CASE c <= 2 /\ AllE \ g.enums /= {} -> \E n \in {Rnd(AllE \ g.enums)}, m \in {Rnd(0..4)} :
         Write(<<K("enum"), I(n, Rnd(0..2)), P("{")>> \o EnumToks(m, 1) \o <<P("}")>>) /\ g' = [g EXCEPT !.enums = @ \cup {n}] /\ stack' = stack
    [] c \in 3..6 /\ AllS \ g.structs /= {} -> \E n \in {Rnd(AllS \ g.structs)}, m \in {Rnd(0..5)} :
         Write(<<K("struct"), I(n, Rnd(0..2)), P("{")>> \o StructToks(m, 1, n) \o <<P("}")>>) /\ g' = [g EXCEPT !.structs = @ \cup {n}] /\ stack' = stack
    [] c \in {7, 17} /\ AllT \ g.types /= {} -> \E n \in {Rnd(AllT \ g.types)} :
         Write(<<K("define"), I(n, 0), K("from"), Q(HeaderOf(n), 0)>>) /\ g' = [g EXCEPT !.types = @ \cup {n}] /\ stack' = stack
    [] c \in {8, 16} -> Write(<<K("namespace"), I(Of(<<"app", "net", "os">>), Rnd(0..2))>>) /\ UNCHANGED <<g, stack>>
    [] c \in 9..12 /\ AllV \ g.svcs /= {} -> \E n \in {Rnd(AllV \ g.svcs)}, m \in {Rnd(0..5)} :
         Write(<<K("service"), I(n, Rnd(0..2)), P("("), IdTok({}), P(")"), P("{")>> \o Body(m, 1, {}) \o <<P("}")>>) /\ g' = [g EXCEPT !.svcs = @ \cup {n}] /\ stack' = stack
    [] c = 13 /\ Len(F) < 4 -> \* begin to write a file that is imported here
         /\ F' = [F EXCEPT ![Now] = @ \o <<K("import"), Q("lib", Len(F) + 1)>>] \o << <<>> >>
         /\ stack' = Append(stack, Len(F) + 1) /\ g' = g
    [] c \in {14, 18} /\ Len(stack) > 1 -> stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<F, g>>
    [] c = 15 /\ Noisy -> Write(Of(<< <<K("import"), Q("lost", 0)>>, <<K("import"), Q("lib", 1)>>, <<K("import"), Q("lib", Len(F))>> >>)) /\ UNCHANGED <<g, stack>>
    [] OTHER -> UNCHANGED <<F, g, stack>>
Strays == <<K("import"), K("namespace"), K("service"), K("enum"), K("define"), K("struct"), K("func"), K("event"), K("from"), K("variant"),
            P("{"), P("}"), P("("), P(")"), P("["), P("]"), P(":"), P(";"), P(","), P("="), I("ghost", 0), I("uint8", 0), I("point", 0), N(1), N(0), N(300), Q("x.h", 0), [k |-> "bad"]>>
Drop(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Insert(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))
Mutated(s, p, c, x) ==
  IF c = "drop" THEN Drop(s, p)
  ELSE IF c = "twice" THEN Insert(s, p, s[p])
  ELSE IF c = "swap" THEN (IF p < Len(s) THEN [s EXCEPT ![p] = s[p + 1], ![p + 1] = s[p]] ELSE s)
  ELSE IF c = "cut" THEN SubSeq(s, 1, p - 1)
  ELSE IF c = "put" THEN [s EXCEPT ![p] = x]
  ELSE Insert(s, p, x)
\* one wrong identity, or one name in place of another one
Numbers(s) == {p \in 2..Len(s) : s[p].k = "n" /\ s[p - 1].k = "p" /\ s[p - 1].s \in {"=", "("}}
Names(s) == {p \in 1..Len(s) : s[p].k = "id"}
Values(s) == {s[p].v : p \in Numbers(s)} \cup {0, 1, 255, 256, -1}
Renamed(s, p, q, w) == [s EXCEPT ![p] = [k |-> "id", s |-> s[q].s, w |-> w]]
Near == \E f \in {Rnd({f \in 1..Len(F) : f = 1 \/ Names(F[f]) /= {}})} :
          IF Names(F[f]) = {} THEN F' = F
          ELSE IF Numbers(F[f]) /= {} /\ Rnd(1..2) = 1 THEN \E p \in {Rnd(Numbers(F[f]))}, v \in {Rnd(Values(F[f]))} : F' = [F EXCEPT ![f][p] = N(v)]
          ELSE \E p \in {Rnd(Names(F[f]))}, q \in {Rnd(Names(F[f]))}, w \in {Of(<<0, 0, 1, 2>>)} : F' = [F EXCEPT ![f] = Renamed(@, p, q, w)]
Quotes(s) == {p \in 1..Len(s) : s[p].k = "q"}
\* the text ends within a quotation
Unclosed == \E f \in {f \in 1..Len(F) : Quotes(F[f]) /= {}} : \E p \in {Rnd(Quotes(F[f]))} : F' = [F EXCEPT ![f] = Append(SubSeq(@, 1, p - 1), [k |-> "bad"])]
Mutate == IF Rnd(1..12) = 1 /\ \E f \in 1..Len(F) : Quotes(F[f]) /= {} THEN Unclosed ELSE \E f \in {Rnd({f \in 1..Len(F) : f = 1 \/ Len(F[f]) > 0})} :
            IF F[f] = <<>> THEN F' = F ELSE \E p \in {Rnd(1..Len(F[f]))}, c \in {Of(<<"drop", "drop", "twice", "swap", "put", "ins", "cut">>)}, x \in {Of(Strays)} : F' = [F EXCEPT ![f] = Mutated(@, p, c, x)]
Next == /\ step' = step + 1 /\ plan' = plan
        /\ (IF step < plan.n THEN Item /\ muts' = muts
            ELSE IF step < plan.n + plan.m THEN (IF plan.near THEN Near ELSE Mutate) /\ muts' = muts + 1 /\ UNCHANGED <<g, stack>>
            ELSE FALSE)
Init == /\ step = 0 /\ F = << <<>> >> /\ stack = <<1>> /\ muts = 0 /\ g = [enums |-> {}, structs |-> {}, types |-> {}, svcs |-> {}]
        /\ \E n \in {RandomElement(4..22)}, c \in {RandomElement(1..6)}, z \in {<<0, 0, 12, 40>>[RandomElement(1..4)]}, x \in {RandomElement(0..5)}, y \in {RandomElement(0..3)} :
             plan = [n |-> n, m |-> IF c \in {1, 4, 5} THEN 1 ELSE IF c = 2 THEN 2 ELSE 0, near |-> c > 3, noise |-> z, client |-> y /= 1, server |-> y /= 2,
                     inc |-> IF x = 0 THEN <<"alpha">> ELSE IF x = 1 THEN <<"beta", "Gamma">> ELSE <<>>]
Spec == Init /\ [][Next]_vars
Emit == step < plan.n + plan.m \/ PrintT("@@" \o ToJson([f |-> F, inc |-> plan.inc, client |-> plan.client, server |-> plan.server]))
=============================================================================
