------------------------------- MODULE MCFsm --------------------------------
EXTENDS Fsm, Json
CONSTANTS MaxQ
\* a machine with guards, self-transitions, wildcard rows and a state without hooks
St == <<[en |-> TRUE, ex |-> TRUE, nm |-> ""], [en |-> TRUE, ex |-> FALSE, nm |-> "S1"], [en |-> FALSE, ex |-> FALSE, nm |-> ""]>>
T(c, n, e, h) == [cur |-> c, next |-> n, ev |-> e, h |-> h]
Tabs == { <<T(0, 1, 0, TRUE), T(0, 2, 0, FALSE), T(1, 1, 0, TRUE), T(1, NULL, 1, TRUE), T(2, 0, ANY, FALSE),
            T(ANY, 0, RESET, TRUE), T(ANY, 1, 1, TRUE)>>,
          <<T(ANY, 0, RESET, FALSE), T(ANY, NULL, 1, FALSE), T(0, 1, 0, FALSE), T(1, 2, ANY, TRUE), T(ANY, 0, 0, TRUE)>> }
MCNext ==
    \/ pc.k = "none" /\ \E t \in Tabs : Reset(St, t, IF Len(t) % 2 = 1 THEN "M" ELSE "", TRUE)
    \/ \E e \in {0, 1, RESET} : Event(e)
    \/ \E i \in 1..7, e \in {0, 1, RESET}, x \in {NULL, 0, 1, 2, 3} : Handler(i, e, x)
    \/ \E v \in {ANY, NULL, SKIP, 0, 1, 2, 3} : HandlerRet(v)
    \/ \E x \in 0..3 : Exit(x) \/ Enter(x)
    \/ ExitRet \/ EnterRet
    \/ Len(q) < MaxQ /\ \E e \in {0, 1} : Post(e)
    \/ \E i \in BOOLEAN : act.op # "x" /\ Done(0, i, Here.lg)
Spec == Init /\ [][MCNext]_vars
Abs == <<tb, s, q, pc>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* exit handlers see the old state, enter handlers the new one
Order == [][(act'.op = "exit" => act'.s = s \/ pc.k = "start") /\ (act'.op = "handler_ret" /\ act'.v = NULL => s' = s)]_vars
=============================================================================
