-------------------------------- MODULE Fsm ---------------------------------
(* Table-driven finite state machine (include/embc/fsm.h).  Handlers run in   *)
(* the middle of an event and may post further events; those wait in a FIFO   *)
(* until the current event is finished (run to completion).                   *)
EXTENDS Integers, Sequences, TLC
VARIABLES tb,  \* the table: [st: <<[en, ex, nm]>> per state, tr: <<[cur, next, ev, h]>>, m: name, ef: BOOLEAN]
          s,   \* current state
          q,   \* events waiting
          pc,  \* where the engine is
          lg,  \* what was logged since the outside call: names of machine, states and event
          act
vars == <<tb, s, q, pc, lg, act>>
ANY == -1
NULL == -2
SKIP == -3
RESET == -3
Idle == [k |-> "idle"]
Init == /\ tb = [st |-> << >>, tr |-> << >>, m |-> "", ef |-> FALSE] /\ s = NULL /\ q = << >> /\ pc = [k |-> "none"]
        /\ lg = << >> /\ act = [op |-> "init"]
\* names: what the user gave, the special names, or "_unnamed_"
MName == IF tb.m = "" THEN "fsm" ELSE tb.m
SName(x) == IF x >= 0 /\ x < Len(tb.st) THEN IF tb.st[x + 1].nm = "" THEN "_unnamed_" ELSE tb.st[x + 1].nm
            ELSE CASE x = -1 -> "any" [] x = -2 -> "null" [] x = -3 -> "skip" [] OTHER -> "_unnamed_"
\* the user's function names every second event
EName(e) == IF tb.ef /\ e >= 0 /\ e % 2 = 0 THEN "E" \o ToString(e)
            ELSE CASE e = -1 -> "any" [] e = -2 -> "null" [] e = -3 -> "reset" [] e = -4 -> "enter" [] e = -5 -> "exit"
                   [] OTHER -> "_unnamed_"

HasExit(x) == IF x >= 0 /\ x < Len(tb.st) THEN tb.st[x + 1].ex ELSE FALSE
HasEnter(x) == IF x >= 0 /\ x < Len(tb.st) THEN tb.st[x + 1].en ELSE FALSE
Matches(i, x, e) == /\ (tb.tr[i].cur = x \/ tb.tr[i].cur = ANY)
                    /\ (tb.tr[i].ev = e \/ tb.tr[i].ev = ANY)
\* first matching transition at or after i, 0 if none
RECURSIVE Search(_, _, _)
Search(i, x, e) == IF i > Len(tb.tr) THEN 0 ELSE IF Matches(i, x, e) THEN i ELSE Search(i + 1, x, e)

\* Each of these gives the next observable point as [pc, s, q].
RECURSIVE Scan(_, _, _, _, _), Go(_, _, _, _, _, _), Next_(_, _, _)
Next_(x, w, l) == IF w = << >> THEN [pc |-> [k |-> "done"], s |-> x, q |-> w, lg |-> l]
                  ELSE Scan(1, x, Head(w), Tail(w), l)
Scan(i, x, e, w, l) ==
    LET j == Search(i, x, e)
    IN IF j = 0 THEN Next_(x, w, Append(l, <<MName, SName(x), EName(e)>>))
       ELSE IF tb.tr[j].h THEN [pc |-> [k |-> "handler", i |-> j, e |-> e], s |-> x, q |-> w, lg |-> l]
       ELSE Go(tb.tr[j].next, e, "exit", x, w, l)
Go(n, e, phase, x, w, l0) ==
    LET l == IF phase = "exit" THEN Append(l0, <<MName, SName(x), SName(n), EName(e)>>) ELSE l0
    IN IF n = NULL THEN Next_(x, w, l0)
       ELSE IF phase = "exit" /\ HasExit(x) THEN [pc |-> [k |-> "exit", n |-> n], s |-> x, q |-> w, lg |-> l]
       ELSE IF HasEnter(n) THEN [pc |-> [k |-> "enter"], s |-> n, q |-> w, lg |-> l]
       ELSE Next_(n, w, l)
At(r) == pc' = r.pc /\ s' = r.s /\ q' = r.q /\ lg' = r.lg

\* initialize: the reset event in the null state
Reset(st, tr, m, ef) ==
    /\ tb' = [st |-> st, tr |-> tr, m |-> m, ef |-> ef]
    /\ s' = NULL /\ q' = <<RESET>> /\ pc' = [k |-> "start"] /\ lg' = << >>
    /\ act' = [op |-> "reset", st |-> st, tr |-> tr, m |-> m, ef |-> ef]
\* a call from outside
Event(e) ==
    /\ pc.k = "idle"
    /\ q' = <<e>> /\ pc' = [k |-> "start"] /\ lg' = << >>
    /\ act' = [op |-> "event", e |-> e]
    /\ UNCHANGED <<tb, s>>
Here == IF pc.k = "start" THEN Next_(s, q, lg) ELSE [pc |-> pc, s |-> s, q |-> q, lg |-> lg]
\* call-backs, each reporting the state the machine claims to be in
Handler(i, e, x) ==
    LET r == Here
    IN /\ r.pc.k = "handler"
       /\ r.pc.i = i /\ r.pc.e = e
       /\ act' = [op |-> "handler", i |-> i, e |-> e, s |-> r.s]
       /\ pc' = [k |-> "in_handler", i |-> i, e |-> e] /\ s' = r.s /\ q' = r.q /\ lg' = r.lg
       /\ UNCHANGED tb
HandlerRet(v) ==
    /\ pc.k = "in_handler"
    /\ At(CASE v = NULL -> Next_(s, q, lg)
            [] v = ANY  -> Go(tb.tr[pc.i].next, pc.e, "exit", s, q, lg)
            [] v = SKIP -> Scan(pc.i + 1, s, pc.e, q, lg)
            [] OTHER    -> Go(v, pc.e, "exit", s, q, lg))
    /\ act' = [op |-> "handler_ret", v |-> v]
    /\ UNCHANGED tb
Exit(x) ==
    LET r == Here
    IN /\ r.pc.k = "exit"
       /\ act' = [op |-> "exit", of |-> r.s, e |-> -5, s |-> r.s]
       /\ pc' = [k |-> "in_exit", n |-> r.pc.n] /\ s' = r.s /\ q' = r.q /\ lg' = r.lg
       /\ UNCHANGED tb
ExitRet == /\ pc.k = "in_exit" /\ At(Go(pc.n, 0, "enter", s, q, lg)) /\ act' = [op |-> "exit_ret"] /\ UNCHANGED tb
Enter(x) ==
    LET r == Here
    IN /\ r.pc.k = "enter"
       /\ act' = [op |-> "enter", of |-> r.s, e |-> -4, s |-> r.s]
       /\ pc' = [k |-> "in_enter"] /\ s' = r.s /\ q' = r.q /\ lg' = r.lg
       /\ UNCHANGED tb
EnterRet == /\ pc.k = "in_enter" /\ At(Next_(s, q, lg)) /\ act' = [op |-> "enter_ret"] /\ UNCHANGED tb
In == pc.k \in {"in_handler", "in_exit", "in_enter"}
\* an event posted by a call-back is queued and the call returns at once.  Seven fit for sure;
\* an overflow is fatal, never silent.
Post(e) ==
    /\ In /\ Len(q) < 8
    /\ q' = Append(q, e)
    /\ act' = [op |-> "post", e |-> e]
    /\ UNCHANGED <<tb, s, pc, lg>>
Overflow ==
    /\ In /\ Len(q) >= 7
    /\ pc' = [k |-> "none"] /\ q' = << >>
    /\ act' = [op |-> "fatal"]
    /\ UNCHANGED <<tb, s, lg>>
\* the outside call (or initialize) returns; a machine must leave reset in a real state
\* The log (which may hold more) shows every transition taken and every unmatched event, in order.
RECURSIVE Within(_, _)
Within(a, b) == IF a = << >> THEN TRUE ELSE IF Len(b) < Len(a) THEN FALSE
                ELSE IF Head(a) = Head(b) THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
Done(x, init, log) ==
    LET r == Here
    IN /\ r.pc.k = "done"
       /\ Within(r.lg, log)
       /\ (init => r.s >= 0)
       /\ act' = [op |-> "done", s |-> r.s, init |-> init, log |-> log]
       /\ pc' = Idle /\ s' = r.s /\ q' = << >> /\ lg' = << >>
       /\ UNCHANGED tb
BadInit ==
    LET r == Here
    IN /\ r.pc.k = "done" /\ r.s < 0
       /\ act' = [op |-> "fatal"]
       /\ pc' = [k |-> "none"] /\ s' = NULL /\ q' = << >>
       /\ UNCHANGED <<tb, lg>>
\* a table whose state ids do not match their position is refused
BadTable == /\ act' = [op |-> "refused", fatal |-> TRUE]
            /\ pc' = [k |-> "none"] /\ s' = NULL /\ q' = << >> /\ UNCHANGED <<tb, lg>>
QueueBound == Len(q) <= 8
Quiet == pc.k = "idle" => q = << >>
=============================================================================
