--------------------------------- MODULE Schema --------------------------------
(* Service descriptions as sequences of tokens: which of them are valid, and   *)
(* which files, identities and includes the code made from a valid one has.    *)
(* A description is a sequence of files, the first is the one that is given to *)
(* the generator. Tokens:                                                      *)
(*   [k |-> "kw", s]     keyword        [k |-> "p", s]   punctuation           *)
(*   [k |-> "id", s, w]  identifier s, written in lower, upper or capital (w)  *)
(*   [k |-> "n", v]      number         [k |-> "q", s, f] quoted text s; file f *)
(*   [k |-> "bad"]       no token: a malformed number, an unknown character,   *)
(*                       a quotation that is never closed                      *)
EXTENDS Integers, Sequences, FiniteSets
Builtin == {"uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint", "int", "long", "ulong", "bool", "string", "float", "double"}
Spelling ==
  [alpha |-> <<"alpha", "ALPHA", "Alpha">>, beta |-> <<"beta", "BETA", "Beta">>, gamma |-> <<"gamma", "GAMMA", "Gamma">>, delta |-> <<"delta", "DELTA", "Delta">>,
   app |-> <<"app", "APP", "App">>, net |-> <<"net", "NET", "Net">>, os |-> <<"os", "OS", "Os">>, anon |-> <<"anon", "ANON", "Anon">>,
   get |-> <<"get", "GET", "Get">>, put |-> <<"put", "PUT", "Put">>, run |-> <<"run", "RUN", "Run">>, halt |-> <<"halt", "HALT", "Halt">>, list |-> <<"list", "LIST", "List">>,
   done |-> <<"done", "DONE", "Done">>, moved |-> <<"moved", "MOVED", "Moved">>, lost |-> <<"lost", "LOST", "Lost">>,
   color |-> <<"color", "COLOR", "Color">>, mode |-> <<"mode", "MODE", "Mode">>, kind |-> <<"kind", "KIND", "Kind">>,
   point |-> <<"point", "POINT", "Point">>, shape |-> <<"shape", "SHAPE", "Shape">>, item |-> <<"item", "ITEM", "Item">>, node |-> <<"node", "NODE", "Node">>, tree |-> <<"tree", "TREE", "Tree">>,
   uint32_t |-> <<"uint32_t", "UINT32_T", "Uint32_t">>, size_t |-> <<"size_t", "SIZE_T", "Size_t">>, pid_t |-> <<"pid_t", "PID_T", "Pid_t">>, ghost |-> <<"ghost", "GHOST", "Ghost">>,
   a |-> <<"a", "A", "A">>, b |-> <<"b", "B", "B">>, c |-> <<"c", "C", "C">>, d |-> <<"d", "D", "D">>, e |-> <<"e", "E", "E">>,
   uint8 |-> <<"uint8", "UINT8", "Uint8">>, int8 |-> <<"int8", "INT8", "Int8">>, uint16 |-> <<"uint16", "UINT16", "Uint16">>, int16 |-> <<"int16", "INT16", "Int16">>, uint32 |-> <<"uint32", "UINT32", "Uint32">>,
   int32 |-> <<"int32", "INT32", "Int32">>, uint64 |-> <<"uint64", "UINT64", "Uint64">>, int64 |-> <<"int64", "INT64", "Int64">>, uint |-> <<"uint", "UINT", "Uint">>, int |-> <<"int", "INT", "Int">>,
   long |-> <<"long", "LONG", "Long">>, ulong |-> <<"ulong", "ULONG", "Ulong">>, bool |-> <<"bool", "BOOL", "Bool">>, string |-> <<"string", "STRING", "String">>, float |-> <<"float", "FLOAT", "Float">>,
   double |-> <<"double", "DOUBLE", "Double">>, char |-> <<"char", "CHAR", "Char">>]
Wr(t) == IF t.s \in DOMAIN Spelling THEN Spelling[t.s][t.w + 1] ELSE t.s
Up(t) == IF t.s \in DOMAIN Spelling THEN Spelling[t.s][2] ELSE t.s

(* ---- grammar. Every rule takes the tokens and the place of the first one;  *)
(*      it answers where it ended and what it found, ok = FALSE if nothing     *)
EOF == [k |-> "eof"]
At(T, p) == IF p <= Len(T) THEN T[p] ELSE EOF
IsK(T, p, x) == At(T, p).k = "kw" /\ At(T, p).s = x
IsP(T, p, x) == At(T, p).k = "p" /\ At(T, p).s = x
IsI(T, p) == At(T, p).k = "id"
IsN(T, p) == At(T, p).k = "n"
IsQ(T, p) == At(T, p).k = "q"
Fail == [ok |-> FALSE, p |-> 0, v |-> <<>>, free |-> FALSE]
Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v, free |-> FALSE]
Loose(r) == [r EXCEPT !.free = TRUE]
Cons(x, r) == [r EXCEPT !.v = <<x>> \o @]
\* type name, "[]" or not
TypeAt(T, p) == IF ~IsI(T, p) THEN Fail
                ELSE IF IsP(T, p + 1, "[") /\ IsP(T, p + 2, "]") THEN Ok(p + 3, [t |-> T[p], arr |-> TRUE])
                ELSE Ok(p + 1, [t |-> T[p], arr |-> FALSE])
RECURSIVE Params(_, _), EnumBody(_, _), Entries(_, _), StructBody(_, _), ServiceBody(_, _)
\* after "("; at least one, up to and including ")"
Params(T, p) ==
  LET ty == TypeAt(T, p) IN
  IF ~ty.ok \/ ~IsI(T, ty.p) THEN Fail
  ELSE LET x == [t |-> ty.v, n |-> T[ty.p]] IN
       IF IsP(T, ty.p + 1, ")") THEN Ok(ty.p + 2, <<x>>)
       ELSE IF IsP(T, ty.p + 1, ",") THEN Cons(x, Params(T, ty.p + 2))
       ELSE Fail
ParamList(T, p) == IF ~IsP(T, p, "(") THEN Fail ELSE IF IsP(T, p + 1, ")") THEN Ok(p + 2, <<>>) ELSE Params(T, p + 1)
EnumBody(T, p) ==   \* after "{", up to and including "}"
  IF ~IsI(T, p) THEN Fail
  ELSE LET val == IsP(T, p + 1, "=")
           q == IF val THEN p + 3 ELSE p + 1
           x == [n |-> T[p]] IN
       IF val /\ ~IsN(T, p + 2) /\ ~IsI(T, p + 2) THEN Fail
       ELSE LET r == IF IsP(T, q, "}") THEN Ok(q + 1, <<x>>)
                     ELSE IF IsP(T, q, ",") /\ IsP(T, q + 1, "}") THEN Loose(Ok(q + 2, <<x>>))     \* a comma after the last one
                     ELSE IF IsP(T, q, ",") THEN Cons(x, EnumBody(T, q + 1))
                     ELSE Fail
            IN IF val /\ IsI(T, p + 2) THEN Loose(r) ELSE r                                          \* the value of something else
Entries(T, p) ==
  IF IsP(T, p, "}") THEN Ok(p + 1, <<>>)
  ELSE IF IsI(T, p) /\ IsI(T, p + 1) /\ IsP(T, p + 2, ";") THEN Cons([t |-> [t |-> T[p], arr |-> FALSE], n |-> T[p + 1]], Entries(T, p + 3))
  ELSE Fail
StructBody(T, p) ==
  IF IsP(T, p, "}") THEN Ok(p + 1, <<>>)
  ELSE IF IsI(T, p) /\ IsP(T, p + 1, ";") THEN Cons([k |-> "x", t |-> T[p]], StructBody(T, p + 2))
  ELSE IF IsK(T, p, "variant") /\ IsI(T, p + 1) /\ IsP(T, p + 2, "{") THEN
         LET r == Entries(T, p + 3) IN IF r.ok THEN Cons([k |-> "v", n |-> T[p + 1], of |-> r.v], StructBody(T, r.p)) ELSE Fail
  ELSE LET ty == TypeAt(T, p) IN
       IF ty.ok /\ IsI(T, ty.p) /\ IsP(T, ty.p + 1, ";") THEN Cons([k |-> "m", t |-> ty.v, n |-> T[ty.p]], StructBody(T, ty.p + 2)) ELSE Fail
Ending(T, p) == IsP(T, p, "=") /\ IsN(T, p + 1) /\ IsP(T, p + 2, ";")
ServiceBody(T, p) ==
  IF IsP(T, p, "}") THEN Ok(p + 1, <<>>)
  ELSE IF IsK(T, p, "func") /\ IsI(T, p + 1) THEN
    LET a == ParamList(T, p + 2) IN
    IF ~a.ok \/ ~IsP(T, a.p, ":") THEN Fail
    ELSE LET b == ParamList(T, a.p + 1) IN
         IF ~b.ok \/ ~Ending(T, b.p) THEN Fail
         ELSE Cons([k |-> "f", n |-> T[p + 1], id |-> T[b.p + 1].v, ps |-> a.v \o b.v], ServiceBody(T, b.p + 3))
  ELSE IF IsK(T, p, "event") /\ IsI(T, p + 1) /\ IsP(T, p + 2, ":") THEN
    IF IsI(T, p + 3) /\ Ending(T, p + 4) THEN
      Cons([k |-> "e", n |-> T[p + 1], id |-> T[p + 5].v, ps |-> <<[t |-> [t |-> T[p + 3], arr |-> FALSE], n |-> T[p + 3]]>>], ServiceBody(T, p + 7))
    ELSE LET a == ParamList(T, p + 3) IN
         IF ~a.ok \/ ~Ending(T, a.p) THEN Fail
         ELSE Cons([k |-> "e", n |-> T[p + 1], id |-> T[a.p + 1].v, ps |-> a.v], ServiceBody(T, a.p + 3))
  ELSE Fail

(* ---- meaning. g: what has been declared so far, in the order of the text    *)
G0 == [ok |-> TRUE, free |-> FALSE, ns |-> "anon", nsu |-> "ANON", enums |-> <<>>, structs |-> <<>>, types |-> <<>>, svcs |-> <<>>]
Bad(g) == [g EXCEPT !.ok = FALSE]
RECURSIVE File(_, _, _, _), Items(_, _, _, _, _)
File(F, f, g, stack) ==
  LET r == Items(F, F[f], 1, [g EXCEPT !.ns = "anon", !.nsu = "ANON"], Append(stack, f)) IN [r EXCEPT !.ns = g.ns, !.nsu = g.nsu]
Service(g, name, sid, body) == [ns |-> g.ns, nsu |-> g.nsu, n |-> name, sid |-> sid, fs |-> SelectSeq(body, LAMBDA x : x.k = "f"), es |-> SelectSeq(body, LAMBDA x : x.k = "e"),
                                enums |-> g.enums, structs |-> g.structs, types |-> g.types]
Items(F, T, p, g, stack) ==
  IF ~g.ok THEN g
  ELSE IF p > Len(T) THEN g
  ELSE IF IsK(T, p, "namespace") /\ IsI(T, p + 1) THEN Items(F, T, p + 2, [g EXCEPT !.ns = Wr(T[p + 1]), !.nsu = Up(T[p + 1])], stack)
  ELSE IF IsK(T, p, "import") /\ IsQ(T, p + 1) THEN
    LET f == T[p + 1].f IN
    IF f = 0 \/ \E x \in 1..Len(stack) : stack[x] = f THEN Bad(g) ELSE Items(F, T, p + 2, File(F, f, g, stack), stack)
  ELSE IF IsK(T, p, "define") /\ IsI(T, p + 1) /\ IsK(T, p + 2, "from") /\ IsQ(T, p + 3) THEN
    Items(F, T, p + 4, [g EXCEPT !.types = Append(@, [n |-> T[p + 1].s, from |-> T[p + 3].s])], stack)
  ELSE IF IsK(T, p, "enum") /\ IsI(T, p + 1) /\ IsP(T, p + 2, "{") THEN
    LET r == IF IsP(T, p + 3, "}") THEN Ok(p + 4, <<>>) ELSE EnumBody(T, p + 3) IN
    IF r.ok THEN Items(F, T, r.p, [g EXCEPT !.enums = Append(@, [n |-> T[p + 1].s, v |-> r.v]), !.free = @ \/ r.free], stack) ELSE Bad(g)
  ELSE IF IsK(T, p, "struct") /\ IsI(T, p + 1) /\ IsP(T, p + 2, "{") THEN
    LET r == StructBody(T, p + 3) IN
    IF r.ok THEN Items(F, T, r.p, [g EXCEPT !.structs = Append(@, [n |-> T[p + 1].s, ms |-> r.v])], stack) ELSE Bad(g)
  ELSE IF IsK(T, p, "service") /\ IsI(T, p + 1) /\ IsP(T, p + 2, "(") /\ IsN(T, p + 3) /\ IsP(T, p + 4, ")") /\ IsP(T, p + 5, "{") THEN
    LET r == ServiceBody(T, p + 6) IN
    IF r.ok THEN Items(F, T, r.p, [g EXCEPT !.svcs = Append(@, Service(g, T[p + 1], T[p + 3].v, r.v))], stack) ELSE Bad(g)
  ELSE Bad(g)

Named(xs, n) == \E k \in 1..Len(xs) : xs[k].n = n
\* types of the library are spelled exactly, others in any case
Known(s, t) == (t.s \in Builtin /\ t.w = 0) \/ Named(s.enums, t.s) \/ Named(s.structs, t.s) \/ Named(s.types, t.s)
ExternalOnly(s, t) == ~(t.s \in Builtin /\ t.w = 0) /\ ~Named(s.enums, t.s) /\ ~Named(s.structs, t.s)
The(xs, n) == xs[CHOOSE k \in 1..Len(xs) : xs[k].n = n /\ \A j \in 1..(k - 1) : xs[j].n /= n]
ExtendsOf(s, n) == {The(s.structs, n).ms[k].t.s : k \in {k \in 1..Len(The(s.structs, n).ms) : The(s.structs, n).ms[k].k = "x"}}
RECURSIVE Above(_, _, _)
Above(s, ns, d) == IF d = 0 THEN {} ELSE LET up == UNION {ExtendsOf(s, n) : n \in ns} IN up \cup Above(s, up, d - 1)
TypesIn(ms) == UNION {IF ms[k].k = "v" THEN {ms[k].of[j].t.t : j \in 1..Len(ms[k].of)} ELSE IF ms[k].k = "x" THEN {ms[k].t} ELSE {ms[k].t.t} : k \in 1..Len(ms)}
UsedBy(s) == UNION {{x.ps[j].t.t : j \in 1..Len(x.ps)} : x \in {s.fs[k] : k \in 1..Len(s.fs)} \cup {s.es[k] : k \in 1..Len(s.es)}}
             \cup UNION {TypesIn(s.structs[k].ms) : k \in 1..Len(s.structs)}
Ids(s) == [k \in 1..Len(s.fs) |-> s.fs[k].id] \o [k \in 1..Len(s.es) |-> s.es[k].id]
ValidService(s) ==
  /\ s.sid \in 1..255
  /\ \A k \in 1..Len(Ids(s)) : Ids(s)[k] \in 1..255
  /\ \A j, k \in 1..Len(Ids(s)) : j /= k => Ids(s)[j] /= Ids(s)[k]
  /\ \A t \in UsedBy(s) : Known(s, t)
  /\ \A k \in 1..Len(s.structs) : \A m \in 1..Len(s.structs[k].ms) : s.structs[k].ms[m].k = "x" => Named(s.structs, s.structs[k].ms[m].t.s)
  /\ \A k \in 1..Len(s.structs) : s.structs[k].n \notin Above(s, {s.structs[k].n}, Len(s.structs))
\* what this specification does not speak about: names that are given twice, arrays of strings
Twice(xs) == \E j, k \in 1..Len(xs) : j /= k /\ xs[j].n = xs[k].n
Arrays(ps) == \E k \in 1..Len(ps) : ps[k].t.arr /\ ps[k].t.t.s = "string"
ArraysM(ms) == \E k \in 1..Len(ms) : ms[k].k = "m" /\ ms[k].t.arr /\ ms[k].t.t.s = "string"
NamesM(ms) == SelectSeq(ms, LAMBDA m : m.k /= "x")
NTwice(xs) == \E j, k \in 1..Len(xs) : j /= k /\ xs[j].n.s = xs[k].n.s
FreeService(s) ==
  \/ NTwice(s.fs) \/ NTwice(s.es) \/ \E k \in 1..Len(s.fs) : Arrays(s.fs[k].ps) \/ NTwice(s.fs[k].ps)
  \/ \E k \in 1..Len(s.es) : Arrays(s.es[k].ps) \/ NTwice(s.es[k].ps)
  \/ \E k \in 1..Len(s.structs) : ArraysM(s.structs[k].ms) \/ NTwice(NamesM(s.structs[k].ms))
  \/ Twice(s.structs \o s.enums \o s.types)
  \/ \E k \in 1..Len(s.enums) : NTwice(s.enums[k].v)
Clean(F) == \A f \in 1..Len(F) : \A k \in 1..Len(F[f]) : F[f][k].k /= "bad"
Read(F) == File(F, 1, G0, <<>>)
RECURSIVE Reached(_, _, _)
Reached(F, fs, d) == IF d = 0 THEN fs ELSE Reached(F, fs \cup {F[f][k].f : <<f, k>> \in {<<f, k>> \in fs \X (1..200) : k \in 2..Len(F[f]) /\ F[f][k].k = "q" /\ F[f][k].f > 0 /\ IsK(F[f], k - 1, "import")}}, d - 1)
BadText(F) == \E f \in Reached(F, {1}, Len(F)) : \E k \in 1..Len(F[f]) : F[f][k].k = "bad"
\* "valid", "invalid", or "free" where nothing is said
Verdict(F) ==
  LET g == Read(F) IN
  IF ~g.ok \/ BadText(F) THEN "invalid"
  ELSE IF g.free \/ \E k \in 1..Len(g.svcs) : FreeService(g.svcs[k]) THEN "free"
  ELSE IF \E j, k \in 1..Len(g.svcs) : j /= k /\ g.svcs[j].n.s = g.svcs[k].n.s /\ g.svcs[j].nsu = g.svcs[k].nsu THEN "free"
  ELSE IF \A k \in 1..Len(g.svcs) : ValidService(g.svcs[k]) THEN "valid" ELSE "invalid"

(* ---- what is made *)
Chosen(g, inc) == {k \in 1..Len(g.svcs) : inc = {} \/ Wr(g.svcs[k].n) \in inc}
Stem(s) == s.ns \o "_" \o Wr(s.n) \o "_service"
Files(g, inc, client, server) ==
  UNION {{Stem(g.svcs[k]) \o ".h"} \cup (IF client THEN {Stem(g.svcs[k]) \o "_client.h", Stem(g.svcs[k]) \o "_client.c"} ELSE {})
                                   \cup (IF server THEN {Stem(g.svcs[k]) \o "_server.h", Stem(g.svcs[k]) \o "_server.c"} ELSE {}) : k \in Chosen(g, inc)}
Macro(s) == "SERVICE_" \o s.nsu \o "_" \o Up(s.n)
Identities(s) == {<<Macro(s) \o "_ID", s.sid>>}
                 \cup {<<Macro(s) \o "_" \o Up(s.fs[k].n) \o "_ID", s.fs[k].id>> : k \in 1..Len(s.fs)}
                 \cup {<<Macro(s) \o "_EVENT_" \o Up(s.es[k].n) \o "_ID", s.es[k].id>> : k \in 1..Len(s.es)}
Includes(s) == {The(s.types, t.s).from : t \in {t \in UsedBy(s) : ExternalOnly(s, t)}}
=============================================================================
