------------------------------ MODULE AwaitAlg ------------------------------
(* How the threads of a client share one connection (runtime/client.c): the    *)
(* first one that has to wait reads from the connection on behalf of all, the  *)
(* others sleep on a condition of their own. Whoever completes a call or stops *)
(* reading wakes all of them. Every thread makes a call, waits for the calls   *)
(* of its group (any or all of them, or only sleeps because others read), and  *)
(* fetches its result. The connection delivers the responses in any order,     *)
(* events in between, and may break. Wake-ups may be spurious.                 *)
(*                                                                             *)
(* Checked: at most one thread reads; nothing that was received is lost; a     *)
(* thread is released only when its condition holds or its connection broke;   *)
(* a thread whose condition holds is released, whoever read the response; and  *)
(* after a break everybody who reads is released.                              *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS T,       \* threads 1..T, thread t made call t
          Events,  \* number of events of the server
          MayBreak,\* TRUE when the connection may break
          Full     \* TRUE: every way to wait; FALSE: for the own call, for any or for all calls
Threads == 1..T
None == 0
VARIABLES mode,    \* thread -> [calls, all, as]
          pc, mtx, listening, sleep,
          status,  \* call -> "open" "done" "error"
          inbox,   \* what the connection holds: sequence of calls (response), -call (error notice), 0 (event)
          sent, broken, cur, left, handled, ret
vars == <<mode, pc, mtx, listening, sleep, status, inbox, sent, broken, cur, left, handled, ret>>

Modes == IF Full THEN [calls : (SUBSET Threads) \ {{}}, all : BOOLEAN, as : BOOLEAN]
         ELSE {[calls |-> {t}, all |-> TRUE, as |-> FALSE] : t \in Threads} \cup [calls : {Threads}, all : BOOLEAN, as : {FALSE}]
(* somebody has to read for those who only sleep; and calls of nobody who waits *)
(* for them are completed by whoever happens to read                            *)
Init == /\ mode \in [Threads -> Modes] /\ \A t \in Threads : t \in mode[t].calls
        /\ pc = [t \in Threads |-> "lock"] /\ mtx = None /\ listening = FALSE /\ sleep = {}
        /\ status = [c \in Threads |-> "open"] /\ inbox = <<>> /\ sent = {} /\ broken = FALSE
        /\ cur = [t \in Threads |-> 99] /\ left = Events /\ handled = 0 /\ ret = [t \in Threads |-> "none"]

Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Holds(t) == IF mode[t].all THEN \A c \in mode[t].calls : status[c] # "open" ELSE \E c \in mode[t].calls : status[c] # "open"
Net == UNCHANGED <<inbox, sent, broken, left>>
Keep == UNCHANGED <<mode, status, cur, handled, ret>>

(* __awaiter_wait *)
Lock(t, a, b) == Go(t, a, b) /\ mtx = None /\ mtx' = t /\ UNCHANGED <<listening, sleep>> /\ Net /\ Keep
Test(t) == /\ pc[t] = "test" /\ Net /\ Keep
           /\ IF Holds(t) THEN pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<listening, sleep, mtx>>
              ELSE IF ~mode[t].as /\ ~listening
                   THEN pc' = [pc EXCEPT ![t] = "unlockr"] /\ listening' = TRUE /\ UNCHANGED <<sleep, mtx>>
                   ELSE pc' = [pc EXCEPT ![t] = "sleep"] /\ sleep' = sleep \cup {t} /\ mtx' = None /\ UNCHANGED listening
Woken(t) == Go(t, "sleep", "test") /\ t \notin sleep /\ mtx = None /\ mtx' = t /\ UNCHANGED <<listening, sleep>> /\ Net /\ Keep
Spurious(t) == t \in sleep /\ sleep' = sleep \ {t} /\ UNCHANGED <<pc, mtx, listening>> /\ Net /\ Keep
Leave(t) == Go(t, "unlock", "out") /\ mtx' = None /\ ret' = [ret EXCEPT ![t] = "ok"]
            /\ UNCHANGED <<listening, sleep, mode, status, cur, handled>> /\ Net
ToRead(t) == Go(t, "unlockr", "read") /\ mtx' = None /\ UNCHANGED <<listening, sleep>> /\ Net /\ Keep
(* __receive_message *)
Read(t) == /\ pc[t] = "read" /\ UNCHANGED <<mtx, listening, sleep, mode, status, handled, sent, broken, left>>
           /\ IF inbox # <<>>
              THEN cur' = [cur EXCEPT ![t] = Head(inbox)] /\ inbox' = Tail(inbox) /\ pc' = [pc EXCEPT ![t] = IF Head(inbox) = 0 THEN "slock" ELSE "clock"] /\ UNCHANGED ret
              ELSE broken /\ ret' = [ret EXCEPT ![t] = "err"] /\ pc' = [pc EXCEPT ![t] = "slock"] /\ UNCHANGED <<cur, inbox>>
(* __handle_response and the error notice: complete the call, wake everybody *)
Complete(t) == /\ Go(t, "complete", "cunlock") /\ sleep' = {}
               /\ status' = [c \in Threads |-> IF status[c] = "open" /\ cur[t] = c THEN "done" ELSE IF status[c] = "open" /\ cur[t] = 100 + c THEN "error" ELSE status[c]]
               /\ UNCHANGED <<mtx, listening, mode, cur, handled, ret>> /\ Net
CUnlock(t) == Go(t, "cunlock", "slock") /\ mtx' = None /\ UNCHANGED <<listening, sleep>> /\ Net /\ Keep
(* __stop_listening: let another thread read, wake everybody *)
Stop(t) == Go(t, "stop", "sunlock") /\ listening' = FALSE /\ sleep' = {} /\ UNCHANGED mtx /\ Net /\ Keep
SUnlock(t) == /\ pc[t] = "sunlock" /\ mtx' = None /\ UNCHANGED <<listening, sleep, mode, status, ret>> /\ Net
              /\ pc' = [pc EXCEPT ![t] = IF ret[t] = "err" THEN "out" ELSE IF cur[t] = 0 THEN "event" ELSE "lock"]
              /\ UNCHANGED <<cur, handled>>
(* the handler of the application, which may take its time *)
Event(t) == Go(t, "event", "lock") /\ handled' = handled + 1 /\ cur' = [cur EXCEPT ![t] = 99] /\ UNCHANGED <<mtx, listening, sleep, mode, status, ret>> /\ Net

Step(t) == \/ Lock(t, "lock", "test") \/ Test(t) \/ Woken(t) \/ Leave(t) \/ ToRead(t) \/ Read(t) \/ Lock(t, "clock", "complete")
           \/ Complete(t) \/ CUnlock(t) \/ Lock(t, "slock", "stop") \/ Stop(t) \/ SUnlock(t) \/ Event(t)
(* the server *)
Answer(c) == /\ c \notin sent /\ ~broken /\ sent' = sent \cup {c}
             /\ \E m \in {c, 100 + c} : inbox' = Append(inbox, m)
             /\ UNCHANGED <<broken, left, pc, mtx, listening, sleep>> /\ Keep
SendEvent == /\ left > 0 /\ ~broken /\ left' = left - 1 /\ inbox' = Append(inbox, 0) /\ UNCHANGED <<sent, broken, pc, mtx, listening, sleep>> /\ Keep
Break == /\ MayBreak /\ ~broken /\ broken' = TRUE /\ UNCHANGED <<inbox, sent, left, pc, mtx, listening, sleep>> /\ Keep
Server == (\E c \in Threads : Answer(c)) \/ SendEvent \/ Break
(* what is left when nothing moves: those who sleep without a reader *)
Resting == /\ \A t \in Threads : pc[t] \in {"out", "sleep"} /\ (pc[t] = "sleep" => t \in sleep)
           /\ (broken \/ (sent = Threads /\ left = 0))
Next == (\E t \in Threads : Step(t) \/ Spurious(t)) \/ Server \/ (Resting /\ UNCHANGED vars)
Spec == /\ Init /\ [][Next]_vars
        /\ \A t \in Threads : SF_vars(Step(t))
        /\ \A c \in Threads : WF_vars(Answer(c))

(* ---------------------------------------------------------------- properties *)
Reader(t) == pc[t] \in {"unlockr", "read", "clock", "complete", "cunlock", "slock", "stop"}
OneReader == Cardinality({t \in Threads : Reader(t)}) <= 1 /\ (listening <=> \E t \in Threads : Reader(t))
InFlight(c) == \E t \in Threads : cur[t] \in {c, 100 + c} /\ pc[t] \in {"clock", "complete"}
NothingLost == \A c \in sent : status[c] # "open" \/ InFlight(c) \/ \E i \in DOMAIN inbox : inbox[i] \in {c, 100 + c}
NotEarly == \A t \in Threads : /\ (ret[t] = "ok" => Holds(t))
                               /\ (ret[t] = "err" => broken /\ ~mode[t].as)
(* a sleeper does not miss its condition, and does not sleep while nobody reads *)
NoMiss == \A t \in sleep : mtx = None =>
            /\ ~Holds(t) \/ \E u \in Threads : pc[u] \in {"clock", "complete", "cunlock", "slock", "stop"}
            /\ (~mode[t].as => listening)
Inv == OneReader /\ NothingLost /\ NotEarly /\ NoMiss
(* not for ever *)
Released == \A t \in Threads : Holds(t) ~> (pc[t] = "out" \/ broken)
ReadersOut == \A t \in Threads : (broken /\ ~mode[t].as) ~> pc[t] = "out"
HeldOut == \A t \in Threads : Holds(t) ~> pc[t] = "out"
(* as long as somebody reads until the end, all calls complete *)
Pumped == (\E t \in Threads : ~mode[t].as /\ mode[t].all /\ mode[t].calls = Threads) => <>(broken \/ \A t \in Threads : pc[t] = "out")
=============================================================================
