------------------------------ MODULE RegistryGen ------------------------------
(* Programs for Registry: behaviours of it, mostly operations that make sense  *)
(* in the state they are made in, some that do not.                            *)
EXTENDS Registry, Sequences, TLC, IOUtils
VARIABLES prog, step, cfg
AllSids == {0, 1, 2, 3, 8, 16, 31, 32, 33, 64, 127, 128, 129, 200, 254, 255}
AllKinds == 0..11
gvars == <<rvars, prog, step, cfg>>
Rnd(S) == IF step >= 0 THEN RandomElement(S) ELSE 0
Str(n) == ToString(n)
Maxes == <<2048, 64, 100, 512, 2048, 3000, 5000, 11000>>
MaxS == Maxes[cfg.max + 1]
MaxC == Maxes[cfg.cmax + 1]
MinM == IF MaxS < MaxC THEN MaxS ELSE MaxC
LenOf(m) == {m, m - 1, m - 2, m \div 2, 12, 11, 13, 40}
\* identities come from a few per program, so that they meet again
Few == cfg.sids
Pick(o, A) == prog' = Append(prog, o) /\ step' = step + 1 /\ cfg' = cfg /\ A
An == {0, -1}
SrvOp == \E x \in {Rnd(1..20)}, k \in {Rnd(cfg.kinds)}, kl \in {IF links /= {} THEN Rnd(links) ELSE Rnd(cfg.kinds)},
            s \in {Rnd(Few)}, v \in {Rnd(0..1)}, a \in {<<1, 1, 1, 2>>[Rnd(1..4)]}, n \in {Rnd(LenOf(MaxS))} :
  CASE x <= 3 -> Pick("L" \o Str(k), \E r \in An : AddLink(k, r))
    [] x \in 4..6 -> Pick("P" \o Str(s) \o "." \o Str(v), \E r \in An : Register(s, v + 1, r))
    [] x \in 7..8 /\ s /= 0 -> Pick("U" \o Str(s) \o "." \o Str(v), Unregister(s, v + 1))
    [] x \in 9..14 /\ s /= 0 /\ srv /= "req" -> Pick("B" \o Str(kl) \o "." \o Str(s) \o "." \o Str(a) \o "." \o Str(n),
                        \E g \in -1..2, p \in 0..2, z \in 0..1 : Probe(kl, s, a, g, p, z, 1))
    [] x = 15 -> Pick("H", \E r \in An : AioHandle(0, r))
    [] x = 16 /\ step > 12 /\ srv = "run" -> Pick("S", AskShutdown(0))
    [] x = 17 /\ srv = "req" -> Pick("G", \E r \in An : MainLoop(0, r))
    [] x \in 18..20 /\ srv = "req" -> Pick("E" \o Str(k), \E f \in 0..2 : Event(0, -1, 1, f, 1))
    [] x = 19 /\ srv = "run" /\ s /= 0 /\ cl = "conn" -> Pick("V" \o Str(s) \o "." \o Str(IF n > MinM THEN MinM ELSE n), \E g \in 0..2 : Broadcast(s, 0, g, 1))
    [] x = 20 -> Pick("Ln", \E r \in An : AddLink(-1, r))
    [] OTHER -> Pick("L" \o Str(k), \E r \in An : AddLink(k, r))
NullOp == \E x \in {Rnd(1..16)} :
  LET o == <<"Ls", "Pn", "Ps", "Un", "Us", "Hs", "Ss", "Gs", "Es", "Ks", "Rs", "Ts", "Is", "Xs", "W3", "W4">>[x] IN
  Pick(o, res' = 0 /\ UNCHANGED <<srv, links, reg, cvars>>)
ClOp == \E x \in {Rnd(1..16)}, s \in {Rnd(Few)}, v \in {Rnd(0..1)}, a \in {<<1, 1, 1, 2>>[Rnd(1..4)]}, n \in {Rnd(LenOf(MinM))}, b \in {Rnd(0..2)} :
  CASE x <= 2 -> Pick("K", \E r \in An, i \in 0..1 : CConnect(0, r, i))
    [] x \in 3..7 /\ s /= 0 /\ srv /= "req" -> Pick("Q" \o Str(s) \o "." \o Str(a) \o "." \o Str(n), \E r \in An, g \in 0..2, t \in 0..2 : CCall(s, a, r, g, t, 1))
    [] x \in 8..9 /\ s /= 0 -> Pick("R" \o Str(s) \o "." \o Str(v), \E r \in An : CRegister(s, v + 1, r))
    [] x = 10 /\ s /= 0 -> Pick("T" \o Str(s) \o "." \o Str(v), CUnregister(s, v + 1))
    [] x \in 11..13 /\ srv = "run" /\ s /= 0 /\ cl = "conn" -> Pick("V" \o Str(s) \o "." \o Str(n), \E g \in 0..2 : Broadcast(s, 0, g, 1))
    [] x = 13 -> Pick("I", \E r \in An : Iod(0, r))
    [] x = 14 -> Pick("W" \o Str(b), Bad(-1))
    [] x = 15 -> Pick("Z" \o Str(b), Bad(-1))
    [] x = 16 /\ step > 10 -> Pick("X", CShutdown(0))
    [] x = 16 -> Pick("Rn", \E r \in An : CRegister(-1, 1, r))
    [] OTHER -> Pick("K", \E r \in An, i \in 0..1 : CConnect(0, r, i))
\* what is possible while a shutdown is pending: ordinary use before it, anything after it
Fresh == AllKinds \ links
ShutNext ==
  \E x \in {Rnd(1..8)}, k \in {Rnd(Fresh)}, kl \in {IF links /= {} THEN Rnd(links) ELSE 0}, ka \in {Rnd(AllKinds)}, s \in {Rnd(AllSids)}, v \in {Rnd(0..1)} :
    CASE srv = "none" -> Pick("N0", Create(0, 0))
      [] srv = "run" /\ step < 3 -> Pick("L" \o Str(k), AddLink(k, 0))
      [] srv = "run" /\ x = 1 /\ Cardinality(links) < 4 -> Pick("L" \o Str(k), AddLink(k, 0))
      [] srv = "run" /\ x <= 3 /\ reg[s] = 0 -> Pick("P" \o Str(s) \o ".0", Register(s, 1, 0))
      [] srv = "run" /\ x <= 4 /\ cl = "none" -> Pick("C" \o Str(kl) \o ".0", CCreate(kl, 0, 0))
      [] srv = "run" /\ x <= 5 /\ cl = "made" /\ ck \in links -> Pick("K", CConnect(0, 0, 1))
      [] srv = "run" -> Pick("S", AskShutdown(0))
      [] x = 1 -> Pick("L" \o Str(ka), \E r \in An : AddLink(ka, r))
      [] x \in 2..3 -> Pick("P" \o Str(s) \o "." \o Str(v), \E r \in An : Register(s, v + 1, r))
      [] x = 4 -> Pick("U" \o Str(s) \o ".0", \E r \in An : Unregister(s, 1))
      [] x = 5 -> Pick("H", \E r \in An : AioHandle(0, r))
      [] x = 6 -> Pick("G", \E r \in An : MainLoop(0, r))
      [] x = 7 /\ cl = "none" -> Pick("C" \o Str(kl) \o ".0", CCreate(kl, 0, 0))
      [] OTHER -> Pick("E0", \E f \in 0..2 : Event(0, -1, 1, f, 1))
AnyNext ==

  /\ \E z \in {Rnd(1..20)}, a \in {<<0, 0, 0, 0, 1, 2>>[Rnd(1..6)]}, b \in {<<0, 0, 0, 1, 2, 3, 4, 4, 5>>[Rnd(1..9)]}, k \in {IF links /= {} /\ Rnd(1..3) > 1 THEN Rnd(links) ELSE Rnd(cfg.kinds)} :
       CASE z = 1 -> NullOp
         [] srv = "none" /\ z <= 17 -> Pick("N" \o Str(a), \E r \in An : Create(a, r))
         [] cl = "none" /\ z \in 2..4 -> Pick("C" \o Str(k) \o "." \o Str(b), \E r \in An : CCreate(k, b, r))
         [] cl /= "none" /\ z \in 5..10 -> ClOp
         [] srv /= "none" -> SrvOp
         [] OTHER -> Pick("W5", Bad(-1))
GNext ==
  /\ step < cfg.len
  /\ IF "PROFILE" \in DOMAIN IOEnv /\ IOEnv.PROFILE = "shut" THEN ShutNext ELSE AnyNext
GInit == /\ RInit /\ prog = <<>> /\ step = 0
         /\ \E m \in {RandomElement(0..7)}, c \in {RandomElement(0..7)}, w \in {<<0, 0, 1, 2, 3>>[RandomElement(1..5)]}, l \in {RandomElement(20..60)},
               q \in {RandomElement(1..6)} :
              \E ks \in {RandomElement({S \in SUBSET AllKinds : Cardinality(S) \in 3..7})}, ss \in {RandomElement({S \in SUBSET AllSids : Cardinality(S) \in {2, 3, 5}})} :
                cfg = [max |-> m, cmax |-> c, w |-> w, len |-> l, kinds |-> IF q = 1 THEN AllKinds ELSE ks, sids |-> IF q = 2 THEN AllSids ELSE ss]
GSpec == GInit /\ [][GNext]_gvars
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Emit == step < cfg.len \/ PrintT("@@ w=" \o Str(cfg.w) \o " max=" \o Str(IF cfg.max = 0 THEN 0 ELSE MaxS) \o " cmax=" \o Str(IF cfg.cmax = 0 THEN 0 ELSE MaxC)
                                 \o " aio=" \o Str(aio) \o ";" \o Join(prog))
=============================================================================
