---------------------------------- MODULE Subs ----------------------------------
(* How the server keeps what a client subscribes to: words of bits, a bit per  *)
(* service, the last service number meaning all of them. It agrees with what   *)
(* Rpc says (everything but some, or only some), whatever the order.           *)
EXTENDS Naturals, FiniteSets
CONSTANTS Words, Bits
VARIABLES bm, ref, said
vars == <<bm, ref, said>>
Top == Words * Bits - 1
Ids == 0..Top
R == INSTANCE Rpc WITH CHECK <- {}, cl <- <<>>, call <- <<>>, th <- <<>>, srv <- <<>>
Word(id) == id \div Bits
Bit(id) == id % Bits
Set(id) == IF id = Top THEN [w \in 0..(Words - 1) |-> 0..(Bits - 1)] ELSE [bm EXCEPT ![Word(id)] = @ \cup {Bit(id)}]
Clear(id) == IF id = Top THEN [w \in 0..(Words - 1) |-> {}] ELSE [bm EXCEPT ![Word(id)] = @ \ {Bit(id)}]
Is(id) == Bit(id) \in bm[Word(id)]
(* in Rpc all is 255 *)
Sid(id) == IF id = Top THEN 255 ELSE id
Init == \E all \in BOOLEAN : /\ bm = [w \in 0..(Words - 1) |-> IF all THEN 0..(Bits - 1) ELSE {}]
                             /\ ref = (IF all THEN R!Everything ELSE R!Nothing) /\ said = <<>>
Op(id, un) == /\ bm' = (IF un = 0 THEN Set(id) ELSE Clear(id)) /\ ref' = R!ApplySub(ref, [sid |-> Sid(id), un |-> un]) /\ UNCHANGED said
Next == \E id \in Ids, un \in {0, 1} : Op(id, un)
Spec == Init /\ [][Next]_vars
Agree == \A id \in Ids \ {Top} : Is(id) = R!Subscribed(ref, id)
(* words are independent of each other: one operation on one service changes that service only *)
Apart == [][\A id \in Ids \ {Top} : (bm[Word(id)] # bm'[Word(id)] /\ Is(id) # (Bit(id) \in bm'[Word(id)])) =>
            \/ \A x \in Ids \ {Top} : (Bit(x) \in bm'[Word(x)]) = (Bit(id) \in bm'[Word(id)])
            \/ \A x \in Ids \ {id} : Is(x) = (Bit(x) \in bm'[Word(x)])]_vars
=================================================================================
