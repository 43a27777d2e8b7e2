-------------------------------- MODULE Framing --------------------------------
(* How messages cross a stream that may cut them anywhere (link/socket):       *)
(* senders that share a connection, a pipe of limited room, and a receiver     *)
(* that continues where it left off. Bytes are <<sender, message, value>>; the *)
(* second byte of a message says how long it is.                               *)
(* A message is on the wire whole and in one piece, or - if its sender was     *)
(* told so - not at all, or in part because the connection has ended. What is  *)
(* delivered is what was put on the wire, byte for byte and in order, up to    *)
(* the first thing that is no message; nothing is written past the buffer.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NS,      \* senders
          NM,      \* messages of each
          H,       \* length of a header
          Lens,    \* lengths of messages
          B,       \* capacity of the buffer of the receiver
          Cap,     \* room in the pipe
          Block,   \* TRUE: senders wait for room (clients), FALSE: they give up if there is none for the first byte (servers)
          Wait,    \* TRUE: the receiver waits for the rest of a message (client that awaits), FALSE: it returns to its loop
          Vals,    \* values of the bytes of a peer that sends anything it likes; {}: no such peer
          NRaw,    \* number of such bytes
          Ends,    \* TRUE: the sending side may end the connection at any time
          Intr     \* number of interruptions
VARIABLES pc, cur, off, res, lock, wire, all, eof, rpc, n, buf, part, out, broken, intr, hi
vars == <<pc, cur, off, res, lock, wire, all, eof, rpc, n, buf, part, out, broken, intr, hi>>
S == 1..NS
(* ------------------------------------------------------------ what the bytes mean *)
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Parse(_)
Parse(b) == IF Len(b) < H THEN <<>>
            ELSE LET L == b[2][3] IN IF L < H \/ L > B \/ Len(b) < L THEN <<>>
                 ELSE <<SubSeq(b, 1, L)>> \o Parse(SubSeq(b, L + 1, Len(b)))
RECURSIVE Bad(_)
Bad(b) == Len(b) >= H /\ LET L == b[2][3] IN IF L < H \/ L > B THEN TRUE ELSE IF Len(b) < L THEN FALSE ELSE Bad(SubSeq(b, L + 1, Len(b)))
Frame(s, m, L) == [i \in 1..L |-> <<s, m, IF i = 2 THEN L ELSE 10 + i>>]
Raw == Vals # {}
Seqs(n1) == [1..n1 -> Vals]
Init ==
  /\ pc = [s \in S |-> "idle"] /\ cur = [s \in S |-> <<0, <<>>>>] /\ off = [s \in S |-> 0] /\ res = [s \in S |-> <<>>] /\ lock = 0
  /\ eof = FALSE /\ rpc = "poll" /\ n = 0 /\ buf = <<>> /\ part = <<>> /\ out = <<>> /\ broken = FALSE /\ intr = Intr /\ hi = 0
  /\ IF Raw THEN \E k \in 0..NRaw : \E q \in Seqs(k) : wire = [i \in 1..k |-> <<0, 0, q[i]>>] ELSE wire = <<>>
  /\ all = wire    \* a peer of its own kind has sent all it wants at once: how that is cut is up to the reads

Send(s) ==
  \/ /\ pc[s] = "idle" /\ cur[s][1] < NM /\ ~Raw
     /\ \E L \in Lens : cur' = [cur EXCEPT ![s] = <<@[1] + 1, Frame(s, @[1] + 1, L)>>]
     /\ pc' = [pc EXCEPT ![s] = "lock"] /\ off' = [off EXCEPT ![s] = 0] /\ UNCHANGED <<res, lock, wire, all, eof, intr>>
  \/ /\ pc[s] = "lock" /\ lock = 0 /\ lock' = s /\ pc' = [pc EXCEPT ![s] = "send"] /\ UNCHANGED <<cur, off, res, wire, all, eof, intr>>
  \/ /\ pc[s] = "send"
     /\ \/ /\ off[s] < Len(cur[s][2]) /\ Len(wire) < Cap /\ ~eof /\ ~broken
           /\ \E k \in 1..Min(Cap - Len(wire), Len(cur[s][2]) - off[s]) :
                /\ wire' = wire \o SubSeq(cur[s][2], off[s] + 1, off[s] + k) /\ all' = all \o SubSeq(cur[s][2], off[s] + 1, off[s] + k)
                /\ off' = [off EXCEPT ![s] = @ + k]
           /\ UNCHANGED <<pc, intr>>
        (* no room: give up before the first byte, wait after it *)
        \/ /\ off[s] < Len(cur[s][2]) /\ (eof \/ broken \/ (Len(wire) >= Cap /\ ~Block /\ off[s] = 0)) /\ pc' = [pc EXCEPT ![s] = "unlock"] /\ UNCHANGED <<wire, all, off, intr>>
        \/ /\ off[s] < Len(cur[s][2]) /\ intr > 0 /\ intr' = intr - 1 /\ UNCHANGED <<pc, wire, all, off>>
        \/ /\ off[s] = Len(cur[s][2]) /\ pc' = [pc EXCEPT ![s] = "unlock"] /\ UNCHANGED <<wire, all, off, intr>>
     /\ UNCHANGED <<cur, res, lock, eof>>
  \/ /\ pc[s] = "unlock" /\ lock' = 0 /\ pc' = [pc EXCEPT ![s] = "idle"] /\ res' = [res EXCEPT ![s] = Append(@, off[s] = Len(cur[s][2]))]
     /\ UNCHANGED <<cur, off, wire, all, eof, intr>>
Sender == \E s \in S : Send(s) /\ UNCHANGED <<rpc, n, buf, part, out, broken, hi>>
End == /\ Ends /\ ~eof /\ eof' = TRUE /\ UNCHANGED <<pc, cur, off, res, lock, wire, all, rpc, n, buf, part, out, broken, intr, hi>>

(* ------------------------------------------------------------ the receiver *)
Valid == IF n < H THEN TRUE ELSE buf[2][3] >= H /\ buf[2][3] <= B
Need == IF n < H THEN H ELSE buf[2][3]
Stop == rpc' = "end" /\ broken' = TRUE
Keep == IF n > Len(part) THEN part' = SubSeq(buf, 1, n) ELSE part' = part
Recv ==
  /\ \/ /\ rpc = "poll" /\ (wire # <<>> \/ eof) /\ rpc' = "recv" /\ n' = Len(part)
        /\ buf' = part \o SubSeq(buf, Len(part) + 1, Len(buf))     \* what is left from before is still in the buffer
        /\ UNCHANGED <<part, out, broken, intr, wire, hi>>
     \/ /\ rpc = "recv" /\ ~Valid /\ Stop /\ UNCHANGED <<n, buf, part, out, intr, wire, hi>>
     \/ /\ rpc = "recv" /\ Valid
        /\ IF n = Need THEN /\ out' = Append(out, SubSeq(buf, 1, n)) /\ part' = <<>> /\ n' = 0 /\ rpc' = "poll" /\ UNCHANGED <<buf, broken, intr, wire, hi>>
           ELSE \/ /\ wire # <<>> /\ \E k \in 1..Min(Need - n, Len(wire)) :
                       /\ buf' = SubSeq(buf, 1, n) \o SubSeq(wire, 1, k) \o SubSeq(buf, n + k + 1, Len(buf)) /\ wire' = SubSeq(wire, k + 1, Len(wire))
                       /\ n' = n + k /\ hi' = (IF n + k > hi THEN n + k ELSE hi)
                   /\ UNCHANGED <<rpc, part, out, broken, intr>>
                \/ /\ wire = <<>> /\ eof /\ Stop /\ UNCHANGED <<n, buf, part, out, intr, wire, hi>>
                \/ /\ wire = <<>> /\ ~eof /\ ~Wait /\ Keep /\ n' = 0 /\ rpc' = "poll" /\ UNCHANGED <<buf, out, broken, intr, wire, hi>>
                \/ /\ intr > 0 /\ intr' = intr - 1 /\ Keep /\ n' = 0 /\ rpc' = "poll" /\ UNCHANGED <<buf, out, broken, wire, hi>>
  /\ UNCHANGED <<pc, cur, off, res, lock, all, eof>>
Idle == /\ \A s \in S : pc[s] = "idle" /\ (Raw \/ cur[s][1] = NM)
Next == Sender \/ End \/ Recv \/ (Idle /\ wire = <<>> /\ UNCHANGED vars) \/ (broken /\ Idle /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Recv) /\ \A s \in S : SF_vars(Send(s) /\ UNCHANGED <<rpc, n, buf, part, out, broken, hi>>)

(* ------------------------------------------------------------ properties *)
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Exact == IsPrefix(out, Parse(all))                               \* nothing but what was sent, in order, and nothing after what is no message
Complete == (rpc = "poll" /\ wire = <<>> /\ part = <<>>) => out = Parse(all)
Bounds == hi <= B                                                \* never past the buffer
GivesUp == broken => (eof /\ wire = <<>>) \/ Bad(all)            \* only a peer that has left or sends what is no message is given up
(* messages of senders are in one piece, and who was told that his message is sent has it on the wire *)
Pieces == \A i \in 1..(Len(all) - 1) : ~Raw => LET a == all[i] b == all[i + 1] IN <<a[1], a[2]>> = <<b[1], b[2]>> \/ b[3] = 11
Told == \A s \in S : \A m \in 1..Len(res[s]) : LET k == Cardinality({i \in 1..Len(all) : all[i][1] = s /\ all[i][2] = m}) IN
          IF res[s][m] THEN k > 0 /\ \E i \in 1..Len(all) : all[i][1] = s /\ all[i][2] = m /\ \A L \in Lens : (\E j \in 1..Len(all) : all[j] = <<s, m, L>> /\ L < 10) => k = L
          ELSE k = 0 \/ eof \/ broken
FramingInv == Exact /\ Complete /\ Bounds /\ GivesUp /\ Pieces /\ Told
Delivered == <>[](broken \/ (Idle /\ wire = <<>> /\ out = Parse(all)))
================================================================================
