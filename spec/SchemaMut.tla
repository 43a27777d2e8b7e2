------------------------------- MODULE SchemaMut -------------------------------
(* Every single change of one token of one description: all places, all kinds, *)
(* every identity replaced by every other one, and every name by every other.  *)
EXTENDS SchemaGen
VARIABLE d
Base == <<K("namespace"), I("app", 0), K("define"), I("size_t", 0), K("from"), Q("stddef.h", 0), K("define"), I("uint32_t", 0), K("from"), Q("stdint.h", 0),
          K("enum"), I("color", 0), P("{"), I("a", 0), P(","), I("b", 0), P("="), N(3), P("}"),
          K("struct"), I("point", 0), P("{"), I("size_t", 0), I("a", 0), P(";"), I("uint32_t", 0), P("["), P("]"), I("b", 0), P(";"),
             K("variant"), I("c", 0), P("{"), I("color", 0), I("d", 0), P(";"), P("}"), P("}"),
          K("struct"), I("shape", 0), P("{"), I("point", 0), P(";"), I("point", 0), P("["), P("]"), I("e", 0), P(";"), P("}"),
          K("service"), I("alpha", 0), P("("), N(9), P(")"), P("{"),
             K("func"), I("get", 0), P("("), I("int", 0), I("a", 0), P(","), I("shape", 0), P("["), P("]"), I("b", 0), P(")"), P(":"), P("("), I("color", 0), I("c", 0), P(")"), P("="), N(1), P(";"),
             K("event"), I("done", 0), P(":"), P("("), I("point", 0), I("a", 0), P(")"), P("="), N(2), P(";"),
             K("event"), I("lost", 0), P(":"), I("shape", 0), P("="), N(255), P(";"), P("}"),
          K("struct"), I("tree", 0), P("{"), I("bool", 0), I("a", 0), P(";"), P("}"),
          K("define"), I("pid_t", 0), K("from"), Q("sys/types.h", 0), K("enum"), I("kind", 0), P("{"), I("e", 0), P("}")>>
LateFrom == CHOOSE p \in 1..Len(Base) : Base[p].k = "id" /\ Base[p].s = "tree"
MInit == /\ step = 0 /\ stack = <<1>> /\ muts = 0 /\ g = [enums |-> {}, structs |-> {}, types |-> {}, svcs |-> {}]
         /\ plan = [n |-> 0, m |-> 0, near |-> FALSE, noise |-> 0, client |-> TRUE, server |-> TRUE, inc |-> <<>>]
         /\ \/ \E p \in Numbers(Base) : \E v \in Values(Base) : F = <<[Base EXCEPT ![p] = N(v)]>> /\ d = <<p, "id", v>>
            \/ \E p, q \in Names(Base) : F = <<Renamed(Base, p, q, 0)>> /\ d = <<p, IF q >= LateFrom THEN "late" ELSE "name", q>>
            \/ \E p \in Names(Base) : \E w \in 1..2 : F = <<Renamed(Base, p, p, w)>> /\ d = <<p, "case", w>>
            \/ \E p \in 1..Len(Base) : \E c \in {"drop", "twice", "swap", "cut", "put", "ins"} : \E x \in 1..Len(Strays) :
                 /\ (c \in {"put", "ins"} \/ x = 1)
                 /\ F = <<Mutated(Base, p, c, Strays[x])>> /\ d = <<p, c, x>>
MSpec == MInit /\ [][FALSE]_<<vars, d>>
MEmit == PrintT("@@" \o ToJson([f |-> F, inc |-> plan.inc, client |-> plan.client, server |-> plan.server, kind |-> d[2]]))
ASSUME Verdict(<<Base>>) = "valid"
=============================================================================
