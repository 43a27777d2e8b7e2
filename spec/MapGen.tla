-------------------------------- MODULE MapGen --------------------------------
(* Behaviours of Map to be replayed into the real table.  The phases make      *)
(* sure that tables grow, shrink and are rebuilt in both directions.           *)
EXTENDS Map, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES ops, phase
gvars == <<m, ret, ops, phase>>
Rnd(S) == IF Len(ops) >= 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
Kinds(p) == CASE p = 0 -> <<"set", "set", "set", "get", "rem">>
              [] p = 1 -> <<"rem", "rem", "rem", "get", "set">>
              [] OTHER -> <<"set", "rem", "get", "set", "rem">>
GInit == MapInit /\ ops = <<>> /\ phase \in 0..2
GNext ==
  \E c \in {Rnd(1..5)}, k \in {Rnd(Keys)}, v \in {Rnd(Vals)}, p \in {Rnd(0..24)}, x \in {Rnd(0..39)} :
    LET kind == IF x = 0 THEN "enum" ELSE Kinds(phase)[c] IN
    /\ CASE kind = "set" -> Set(k, v) [] kind = "get" -> Get(k) [] kind = "rem" -> Remove(k)
         [] OTHER -> UNCHANGED mvars
    /\ ops' = Append(ops, <<kind, k, v>>)
    /\ phase' = IF p < 3 THEN p ELSE phase
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(ops) < Depth \/ PrintT("@@" \o ToJson(ops))
=============================================================================
