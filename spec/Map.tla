---------------------------------- MODULE Map ----------------------------------
(* What every table of the runtime (protocols, clients, pending calls,        *)
(* awaiters) relies on: a lookup table is a map.  P11.                         *)
EXTENDS Naturals, Integers, FiniteSets
CONSTANTS Keys, Vals
None == -1
VARIABLES m,      \* the map: a function from a subset of Keys to values
          ret     \* what the last operation returned
mvars == <<m, ret>>

MapInit == m = [k \in {} |-> 0] /\ ret = None

At(k) == IF k \in DOMAIN m THEN m[k] ELSE None
Without(k) == [x \in DOMAIN m \ {k} |-> m[x]]
With(k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

Set(k, v) == m' = With(k, v) /\ ret' = At(k)
Get(k)    == m' = m /\ ret' = At(k)
Remove(k) == m' = Without(k) /\ ret' = At(k)
\* enumeration: `seen` is the sequence of <<key, value>> pairs that were visited
Enum(seen, len) ==
    /\ len = Cardinality(DOMAIN m)
    /\ seen = { <<k, m[k]>> : k \in DOMAIN m }
    /\ m' = m /\ ret' = None

MapNext == \E k \in Keys : \/ \E v \in Vals : Set(k, v)
                           \/ Get(k)
                           \/ Remove(k)
MapSpec == MapInit /\ [][MapNext]_mvars
TypeOK == DOMAIN m \subseteq Keys /\ \A k \in DOMAIN m : m[k] \in Vals
=============================================================================
