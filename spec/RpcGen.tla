-------------------------------- MODULE RpcGen --------------------------------
(* Scenarios for the full stack harness: who connects how, what every thread of *)
(* every client does, what the server's own threads do, and how the network and *)
(* the server are set up. The profile decides what there is most of.            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES cls, cast, step, cfg, mx
gvars == <<cls, cast, step, cfg, mx>>
P == IOEnv.PROFILE
Depth == CASE P = "burst" -> 14 [] P = "life" -> 26 [] P = "shut" -> 16 [] P = "many" -> 8 [] OTHER -> 24
R(S) == IF step >= 0 THEN RandomElement(S) ELSE 0
Pick(q) == q[R(1..Len(q))]
S(n) == ToString(n)
Rep(s, n) == LET f[k \in 0..n] == IF k = 0 THEN "" ELSE f[k - 1] \o " " \o s IN f[n]

Types == CASE P = "raw" -> <<"Rus", "Ris", "Rud", "Rid", "us", "is", "ud", "id", "us">>
           [] P = "rserv" -> <<"us", "is", "us", "is", "ud", "id">>
           [] P = "lossy" -> <<"us", "is", "ud">>
           [] P = "dgram" -> <<"ud", "id", "ud", "id", "us">>
           [] P \in {"seg", "cap", "shut", "await", "many", "ids"} -> <<"us", "is">>
           [] P = "mem" -> <<"us", "is", "us", "is", "ud">>
           [] P = "life" -> <<"us", "is", "us", "ud">>
           [] P \in {"reuse", "chase", "pipe"} -> <<"us", "is", "us">>
           [] OTHER -> <<"us", "is", "us", "is", "ud">>
(* second threads read for the connection, or make calls of their own *)
Second == CASE P = "await" -> <<"M", "M", "own", "own", "none">>
            [] P \in {"result", "mix", "unknown"} -> <<"none", "none", "own", "M">>
            [] P = "event" -> <<"M", "none">>
            [] P = "mem" -> <<"none", "none", "own">>
            [] P = "rserv" -> <<"none", "none", "M", "own">>
            [] P \in {"defer"} -> <<"none", "own">>
            [] OTHER -> <<"none">>
Workers == CASE P \in {"order"} -> <<0, 1>> [] P = "burst" -> <<1, 2, 2, 3>> [] P = "shut" -> <<0, 2, 2, 3>> [] OTHER -> <<0, 1, 2, 2, 3>>
Sids == <<1, 40, 254, 2, 8, 31, 32, 33, 41, 72, 127, 128, 222, 223, 224, 253>>
Lens == CASE P = "big" -> <<0, 1, 900, 1500, 1800, 2025>> [] P = "pipe" -> <<0>> [] P = "max" -> <<0, 1, mx - 23, mx - 23, mx - 24>> [] P = "cap" -> <<0, 1, 5, 60, 200>> [] P = "lossy" -> <<0, 1, 5, 20>> [] P = "mem" -> <<0, 1, 20, 60, 100>> [] P = "burst" -> <<0, 3, 100, 700, 1240, 1240>> [] OTHER -> <<0, 1, 2, 5, 11, 30, 100, 400>>
RLens == CASE P = "pipe" -> <<0, 60, 200, 400>> [] P = "big" -> <<0, 1, 900, 1800, 2029>> [] P = "max" -> (IF mx > 30000 THEN <<0, 1, (mx - 19) \div 3, (mx - 19) \div 3 - 1>> ELSE <<0, 1, mx - 19, mx - 19, mx - 20>>) [] OTHER -> Lens
Svcs == <<"a", "b", "a", "b", "z">>
Kinds == CASE P \in {"defer", "reuse"} -> <<1, 1, 1, 0, 10>>
           [] P \in {"seg", "cap", "big", "max"} -> <<0, 0, 1>>
           [] P = "pipe" -> <<0, 0, 0, 1, 10>>
           [] P = "chase" -> <<0, 1, 5, 5>>
           [] P = "burst" -> <<0, 10, 0, 7, 8>>
           [] P = "event" -> <<0, 3, 3, 4, 5, 10>>
           [] P = "result" -> <<0, 1, 1, 12, 10, 2>>
           [] P = "await" -> <<0, 1, 1, 10, 2>>
           [] P = "unknown" -> <<0, 9, 9, 1>>
           [] P = "shut" -> <<0, 10, 6, 3, 0, 2>>
           [] P = "dgram" -> <<0, 1, 3, 4, 10>>
           [] P = "life" -> <<0, 1, 10, 3>>
           [] P = "order" -> <<0, 0, 10, 1>>
           [] P = "ids" -> <<0, 1, 1, 10, 12>>
           [] P = "mem" -> <<0, 0, 1, 3, 4, 5, 9, 12, 12>>
           [] P \in {"raw", "rserv"} -> <<0, 0, 10>>
           [] P = "lossy" -> <<3, 3, 4, 5>>
           [] OTHER -> <<0, 1, 10, 3, 12>>
Dg(c) == cls[c].ty \in {"ud", "id"}
Kind(c) ==
  LET k0 == Pick(Kinds)  k == IF k0 = 2 /\ (Dg(c) \/ cls[c].m = "M") THEN 0 ELSE k0
      arg == CASE k = 3 -> Pick(Sids) [] k = 5 -> R(1..Len(cls)) [] k = 9 -> R({0, 1}) [] OTHER -> 0
      rl == IF k = 3 \/ k = 5 \/ k = 4 THEN R(0..20) ELSE Pick(RLens)
  IN k + 256 * arg + 65536 * rl
Len1(c) == LET l == Pick(Lens) IN IF P = "burst" /\ Dg(c) /\ l > 700 THEN 700 ELSE l
Req(c, op, svc) == op \o svc \o ":" \o S(Kind(c)) \o ":" \o S(Len1(c))
Ix == S(R(0..7))

Args ==
  LET w == " w=" \o S(Pick(Workers))
      net == CASE P = "seg" -> " seg=" \o S(Pick(<<1, 1, 1, 2, 3>>)) \o " partial=" \o S(R({0, 1})) \o " cuts=" \o S(R(1..20)) \o "," \o S(R(1..20)) \o "," \o S(R(1..40))
               [] P = "pipe" -> " seg=" \o S(R({0, 1})) \o " cap=" \o S(R({240, 300, 500})) \o " partial=" \o S(R({0, 1}))
               [] P = "max" -> " max=" \o S(mx) \o " cmax=" \o S(mx) \o (IF mx > 30000 THEN " rmul=3" ELSE "") \o " seg=" \o S(Pick(<<0, 0, 1>>))
               [] P = "cap" -> " seg=" \o S(R({0, 1})) \o " cap=" \o S(R({16, 40, 120})) \o " partial=1"
               [] P \in {"result", "await", "defer", "shut", "life", "order", "mix"} -> " seg=" \o S(Pick(<<0, 0, 0, 1>>))
               [] OTHER -> ""
      ex == CASE P = "life" -> " accf=" \o S(Pick(<<0, 0, 1, 2>>)) [] P = "shut" -> " nod=1" [] P = "mem" -> Pick(<<" rb=0", " rb=0 cmax=128", " rb=0 cmax=128", " rb=300 cmax=128">>) [] P = "reuse" -> " reuse=1" [] P = "burst" -> " max=" \o S(Pick(<<800, 2048>>)) [] OTHER -> ""
      rw == CASE P = "raw" -> " max=800 seg=" \o S(Pick(<<0, 1, 2>>)) [] P = "dgram" -> " snf=" \o S(Pick(<<0, 0, 3, 5>>)) [] P = "lossy" -> " lossy=1 partial=" \o S(R({0, 1})) \o " dg=" \o S(R(1..3)) \o " cap=" \o S(R({60, 100, 200})) [] P = "rserv" -> " rs=1 seg=" \o S(Pick(<<0, 0, 1>>)) [] OTHER -> ""
      (* the application waits for events on its own; signals end calls that wait *)
      ap == (IF P \in {"rserv", "cap", "raw"} THEN "" ELSE Pick(<<"", "", "", " ext=1">>))
            \o (IF P \in {"seg", "cap", "mix", "await", "lossy", "dgram", "order", "pipe", "shut", "life", "max", "result"} THEN Pick(<<"", "", " eintr=3">>) ELSE "")
  IN w \o rw \o net \o ex \o ap \o " mem=" \o S(IF P \in {"burst"} THEN 0 ELSE R({0, 1}))
CastOp == CASE P = "shut" -> Pick(<<"y", "S", "y", "q">>)
            [] P = "chase" -> "t" \o S(R(1..Len(cls))) \o ":" \o S(R(0..30))
            [] P = "max" -> Pick(<<"b" \o S(Pick(Sids)) \o ":" \o S(mx - 19), "t" \o S(R(1..Len(cls))) \o ":" \o S(mx - 19), "q">>)
            [] P \in {"event", "dgram", "mix", "life", "seg", "lossy", "mem"} -> Pick(<<"b" \o S(Pick(Sids)) \o ":" \o S(R(0..30)), "b" \o S(Pick(Sids)) \o ":" \o S(R(0..30)), "t" \o S(R(1..Len(cls))) \o ":" \o S(R(0..30)), "y", "q">>)
            [] OTHER -> "y"
NewCl == LET ty == Pick(Types)  m == IF ty \notin {"us", "is"} THEN "none" ELSE Pick(Second)
         IN [ty |-> ty, m |-> m, n |-> 0, s |-> "", a |-> (IF R(0..3) = 0 THEN " q" ELSE ""), b |-> IF m = "M" THEN (IF P = "await" THEN (LET x == R(1..60) IN IF x = 1 THEN " M65536" ELSE IF x <= 20 THEN " M300" ELSE " M") ELSE " M") ELSE ""]
(* ------------------------------------------------------------ peers of our own making *)
H == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
H2(n) == H[((n \div 16) % 16) + 1] \o H[(n % 16) + 1]
LE(n) == H2(n % 256) \o H2((n \div 256) % 256) \o H2((n \div 65536) % 256) \o H2(n \div 16777216)
Fill(n) == IF n > 0 THEN "*" \o S(n) \o "." ELSE ""
Hdr(id, len, sid, aid, fl) == LE(id) \o len \o H2(sid) \o H2(aid) \o H2(fl)
RTag(c) == 20000000 + c * 10000 + 3 * cls[c].n
MaxMsg == 800
(* a good request with n bytes of data, whose length field says dl more *)
GoodT(c, n, dl, x) == Hdr(1000 + 3 * cls[c].n + x, LE(23 + n + dl), Pick(<<1, 40, 254>>), 1, 0) \o LE(RTag(c) + x) \o LE(65536 * R(0..40)) \o LE(n) \o Fill(n)
Good(c, n, dl) == GoodT(c, n, dl, 0)
Unk(c, n) == Hdr(1000 + 3 * cls[c].n, LE(15 + n), 99, R(0..255), R({0, 1})) \o LE(RTag(c)) \o Fill(n)
BadLen == Pick(<<LE(0), LE(1), LE(4), LE(7), LE(8), LE(10), LE(MaxMsg + 481), LE(MaxMsg + 500), LE(MaxMsg + 512), LE(MaxMsg + 513), LE(MaxMsg + 514), LE(4000), LE(65535), LE(65536), "ffffff7f", "00000080", "ffffffff", "0b000080", "f5ffffff">>)
(* a datagram that would look whole if only its first part were read *)
CutOff(c) == LET n == Pick(<<1144, 1144, R(801..1312)>>) IN Hdr(1002 + 3 * cls[c].n, LE(n), Pick(<<1, 40, 254>>), 1, 0) \o LE(RTag(c) + 2) \o LE(0) \o LE(n - 23) \o Fill(n - 23 + Pick(<<1, 100, 2000>>))
Bad(c) == Hdr(1002 + 3 * cls[c].n, BadLen, Pick(<<1, 40, 254, 0, 99>>), 1, 0) \o (IF R(0..1) = 0 THEN "" ELSE LE(RTag(c) + 2) \o LE(0) \o LE(R(0..9)) \o Fill(R({0, 4, 11, 40, 1500, 4100})))
(* what the server, when the harness plays it, sends *)
SEv(c, n, dl) == Hdr(0, LE(19 + n + dl), Pick(Sids), 3, 2) \o LE(cls[c].n + 1) \o LE(n) \o Fill(n)
SStray(c, n) == Hdr(R({0, 77777, 200000000}), LE(19 + n), Pick(<<1, 40, 99, 0>>), R(1..3), Pick(<<3, 3, 1, 0>>)) \o LE(5) \o LE(n) \o Fill(n)
SErr(c) == Hdr(0, LE(19), 0, 2, 2) \o LE(R({0, 77777, 200000000})) \o LE(2)
SBadLen == Pick(<<LE(0), LE(1), LE(4), LE(7), LE(8), LE(10), LE(2049), LE(2050), LE(4000), LE(65536), "ffffff7f", "00000080", "ffffffff", "0b000080", "f5ffffff">>)
SBad(c) == Hdr(R({0, 1, 5}), SBadLen, Pick(<<1, 40, 254, 0, 99>>), R(1..3), Pick(<<2, 3>>)) \o (IF R(0..1) = 0 THEN "" ELSE LE(cls[c].n) \o LE(0) \o Fill(R({0, 4, 11, 40, 2100})))
IsRaw(c) == cls[c].ty \in {"Rus", "Ris", "Rud", "Rid"}
RawStream(c) == cls[c].ty \in {"Rus", "Ris"}
RawOp(c) ==
  IF RawStream(c)
  THEN Pick(<<"h" \o Good(c, R(0..300), 0), "h" \o Good(c, R({0, 1, 60, 700, 777}), 0) \o GoodT(c, R(0..9), 0, 1), "h" \o Unk(c, R(0..40)), "h" \o Good(c, R({1200, 1250, 1256, 1257, 1258, 1270, 1289, 1290}), 0), "h" \o Hdr(1000 + 3 * cls[c].n, LE(11), 99, R(0..255), R({0, 1})),
              "h" \o Bad(c), "h" \o Bad(c), "h" \o Good(c, R(0..20), 0) \o Bad(c), "h" \o Good(c, R(0..20), R(1..40)) \o " X", "X", "q", "y",
              "h" \o Pick(<<"00", "0011", "00112233", "0011223344556677", "00112233445566778899">>) \o Pick(<<"", " X">>),
              "h" \o Hdr(1000, LE(R(24..500)), 1, 1, 0) \o Fill(R(0..12)) \o " X">>)
  ELSE Pick(<<"h" \o Good(c, R(0..300), 0), "h" \o Good(c, R(0..300), R(1..40)), "h" \o Good(c, R(30..300), 0 - R(1..30)), "h" \o Unk(c, R(0..40)),
              "h" \o Bad(c), "h" \o Bad(c), "h" \o Good(c, R({777, 1300, 1500, 4000}), 0), "h" \o Pick(<<"00", "0011", "00112233", "0011223344556677", "00112233445566778899">>),
              "h" \o Hdr(1000, LE(R(12..500)), 1, 1, 0), "q", "y", "h" \o CutOff(c), "h" \o Hdr(1000, LE(12), 0, R({0, 1}), 1) \o H2(Pick(<<1, 40, 255>>)) >>)
ServOp(c) == Pick(<<"g", "g", "g", "A" \o Ix, "A" \o Ix, "A" \o Ix, "h" \o SEv(c, R(0..40), 0), "h" \o SStray(c, R(0..40)), "h" \o SErr(c), "y", "q",
                    IF Dg(c) THEN "! h" \o SEv(c, R(0..40), R(1..9)) ELSE "h" \o SEv(c, R({0, 1, 2000, 2029}), 0),
                    IF Dg(c) THEN "! h" \o SEv(c, R(20..40), 0 - R(1..9)) ELSE "y",
                    IF Dg(c) /\ R(0..1) = 0 THEN "! h" \o (LET x == R(1..90) IN SEv(c, 2029 + x, 0 - x)) ELSE "y",
                    IF R(0..2) = 0 THEN "! h" \o SBad(c) \o (IF Dg(c) THEN "" ELSE Pick(<<"", " X">>)) ELSE "y",
                    IF R(0..3) = 0 /\ ~Dg(c) THEN "! h" \o Pick(<<"00", "0011223344556677", "00000000*6.", Hdr(0, LE(60), 1, 3, 2) \o Fill(R(0..48))>>) \o " X" ELSE "y">>)

OpNames == CASE P = "burst" -> <<"burst", "burst", "call", "casts", "await", "res", "subs">>
             [] P = "pipe" -> <<"pipe", "pipe", "yield">>
             [] P = "chase" -> <<"x", "x", "yield", "cast", "call", "q">>
             [] P = "order" -> <<"cast", "call", "casts", "cast", "await", "res", "yield">>
             [] P = "seg" -> <<"call", "cast", "sync", "await", "res", "sub">>
             [] P = "cap" -> <<"sync", "sync", "cast">>
             [] P = "max" /\ mx < 30000 -> <<"sync", "sync", "cast", "call", "call", "call", "pump", "pump", "res", "res", "await", "q">>
             [] P \in {"big", "max"} -> <<"sync", "sync", "cast", "call">>
             [] P = "many" -> <<"flood", "sync", "sync", "call", "res", "await">>
             [] P = "ids" -> <<"call", "call", "call", "call", "warp", "res", "res", "sync", "cast", "unk", "await">>
             [] P = "mem" -> <<"call", "call", "sync", "sync", "cast", "await", "res", "res", "res", "pump", "pump", "unk", "q", "sub", "zcall", "nc">>
             [] P = "result" -> <<"call", "call", "call", "nc", "await", "res", "res", "pump", "wait", "unk">>
             [] P = "await" -> <<"call", "call", "await", "await", "awaits", "wait", "res", "pump", "unk">>
             [] P = "unknown" -> <<"unk", "unk", "call", "zcall", "zcall", "await", "res", "cast">>
             [] P = "event" -> <<"sub", "sub", "unsub", "unsub", "sync", "pump", "call", "q">>
             [] P = "life" -> <<"call", "cast", "sync", "x", "yield", "sub", "unsub", "q">>
             [] P = "defer" -> <<"call", "call", "call", "await", "res", "x", "yield">>
             [] P = "reuse" -> <<"call", "call", "call", "x", "yield", "cast", "res", "x">>
             [] P = "dgram" -> <<"sync", "call", "cast", "sub", "unsub", "unsuball", "pump", "q", "unk">>
             [] P = "lossy" -> <<"sub", "cast", "cast", "pump", "unsub", "q", "cast", "x">>
             [] P = "raw" -> <<"sync", "sync", "cast", "call", "q", "yield">>
             [] P = "rserv" -> <<"call", "call", "await", "res", "res", "pump", "wait", "cast", "q", "serve", "serve", "serve", "serve", "serve">>
             [] P = "shut" -> <<"call", "cast", "call", "await", "x", "yield", "casts">>
             [] OTHER -> <<"call", "cast", "sync", "await", "res", "nc", "sub", "unsub", "pump", "unk", "yield", "q">>
Op(c, nm) ==
  CASE IsRaw(c) -> RawOp(c)
    [] P = "rserv" /\ Dg(c) /\ nm \in {"await", "wait"} -> "q p"
    [] nm = "call" -> Req(c, "c", Pick(Svcs))
    [] nm = "nc" -> "n" \o Pick(Svcs)
    (* more calls at once than fit into a byte, most of them without an answer *)
    [] nm = "flood" -> Rep("c" \o Pick(Svcs) \o ":2:0", R({3, 130, 262}))
    (* many calls later *)
    [] nm = "warp" -> "W" \o S(Pick(<<65536, 65536, 65536, 32768, 4096, 1024, 512>>) - R(0..5))
    [] nm = "zcall" -> Req(c, "c", "z")
    [] nm = "cast" -> Req(c, "k", Pick(Svcs))
    [] nm = "casts" -> Rep(Req(c, "k", Pick(Svcs)), R(3..8))
    [] nm = "burst" -> Rep(Req(c, "k", Pick(Svcs)), R(20..90))
    [] nm = "subs" -> Rep("s" \o S(Pick(Sids)), R(10..80))
    (* several requests at once, whose responses do not fit into the connection together *)
    [] nm = "pipe" -> LET n == cls[c].n IN Req(c, "c", "a") \o " " \o Req(c, "c", "b") \o " " \o Req(c, "c", "a")
                      \o (IF R({0, 1}) = 0 THEN " y" ELSE "") \o " al:" \o S(n) \o "," \o S(n + 1) \o "," \o S(n + 2) \o " r" \o S(n) \o " r" \o S(n + 1) \o " r" \o S(n + 2)
    [] nm = "sync" -> LET l == IF P = "max" THEN Pick(RLens) ELSE Pick(Lens)
                          k == IF P \in {"cap", "big"} \/ Dg(c) THEN 65536 * l + R({0, 1}) ELSE 65536 * l
                      IN "c" \o Pick(Svcs) \o ":" \o S(k) \o ":" \o S(Pick(Lens)) \o " al:" \o S(cls[c].n) \o " r" \o S(cls[c].n)
    [] nm = "unk" -> IF R({0, 1}) = 0 THEN Req(c, "c", Pick(<<"u", "v">>)) ELSE Req(c, "k", Pick(<<"u", "v">>))
    [] nm = "await" -> "a" \o Pick(<<"y", "l">>) \o ":" \o Ix \o "," \o Ix \o Pick(<<"", "", "", "," \o Ix \o "," \o Ix \o "," \o Ix>>)
    [] nm = "awaits" -> IF cls[c].m = "M" THEN "a" \o Pick(<<"Y", "L">>) \o ":" \o Ix \o "," \o Ix \o "," \o Ix \o Pick(<<"", "", "," \o Ix \o "," \o Ix \o "," \o Ix \o "," \o Ix>>) ELSE "ay:" \o Ix
    [] nm = "wait" -> "w" \o Ix
    [] nm = "res" -> "r" \o Ix
    [] nm = "pump" -> "p"
    [] nm = "sub" -> "s" \o S(IF R(0..5) = 0 THEN 255 ELSE Pick(Sids))
    [] nm = "unsub" -> "u" \o S(IF R(0..5) = 0 THEN 255 ELSE Pick(Sids))
    [] nm = "unsuball" -> "u255"
    [] nm = "x" -> IF cls[c].m = "none" /\ (P = "chase" \/ R(0..2) = 0) THEN "x" ELSE "y"
    [] nm = "q" -> "q"
    [] OTHER -> "y"
(* how many calls a step has made is not known for floods: what is asked for then is some call *)
CallsIn(c, nm) == IF nm = "pipe" THEN 3 ELSE IF nm \in {"call", "zcall", "sync", "serve"} \/ IsRaw(c) THEN 1 ELSE 0

GInit == mx = 0 /\ cls = <<>> /\ cast = "" /\ step = 0 /\ cfg = ""
MaxCl == IF P = "reuse" THEN 6 ELSE IF P \in {"many", "ids"} THEN 1 ELSE IF P \in {"cap", "order"} THEN 2 ELSE 4
GNext ==
  \/ step = 0 /\ mx = 0 /\ mx' = Pick(<<64, 65, 100, 300, 800, 2048, 5000, 20000, 69898>>) /\ UNCHANGED <<cls, cast, step, cfg>>
  \/ step = 0 /\ mx > 0 /\ mx' = mx /\ \E n \in {R(1..MaxCl)} : cls' = [c \in 1..n |-> NewCl] /\ cfg' = Args /\ step' = 1 /\ cast' = cast
  \/ step > 0 /\ step < Depth /\ step' = step + 1 /\ cfg' = cfg /\ mx' = mx
     /\ \E c \in {R(1..Len(cls))}, nm \in {Pick(OpNames)}, o2 \in {R(0..2)}, bc \in {R(0..(IF P = "chase" THEN 1 ELSE 4))} :
          IF bc = 0 THEN cast' = cast \o " " \o CastOp /\ UNCHANGED cls
          ELSE IF P = "rserv" /\ nm = "serve" THEN cast' = cast /\ cls' = [cls EXCEPT ![c].s = @ \o " " \o ServOp(c), ![c].n = @ + 1]
          ELSE /\ cast' = cast
               /\ cls' = [cls EXCEPT ![c] = IF cls[c].m = "own" /\ o2 = 0 /\ nm \notin {"x", "sync"} THEN [@ EXCEPT !.b = @ \o " " \o Op(c, nm), !.n = @ + CallsIn(c, nm)]
                                            ELSE [@ EXCEPT !.a = @ \o " " \o Op(c, nm), !.n = @ + CallsIn(c, nm)]]
GSpec == GInit /\ [][GNext]_gvars
Text == LET f[c \in 0..Len(cls)] == IF c = 0 THEN "" ELSE f[c - 1] \o ";C" \o S(c) \o " " \o cls[c].ty \o cls[c].a \o (IF cls[c].b # "" THEN " /" \o cls[c].b ELSE "")
                                             \o (IF cls[c].s # "" THEN ";S" \o (IF cls[c].ty = "ud" THEN "92" ELSE IF cls[c].ty = "id" THEN "93" ELSE S(c)) \o cls[c].s ELSE "")
        IN cfg \o f[Len(cls)] \o (IF cast # "" THEN ";B" \o cast ELSE "")
Emit == step < Depth \/ PrintT("@@" \o Text)
=============================================================================
