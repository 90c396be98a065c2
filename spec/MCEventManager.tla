--------------------------- MODULE MCEventManager ---------------------------
EXTENDS EventManager, Json
CONSTANTS MaxEv, Times, MaxDepth
\* lowest id not in use: one representative (the trace spec accepts any fresh id)
Fresh == CHOOSE i \in 1..20 : i \notin Ids \cup Running /\ \A j \in 1..(i - 1) : j \in Ids \cup Running
Next ==
    \/ ~open /\ Reset(0)
    \/ \E ts \in Times : \/ Cardinality(Ids \cup Running) < MaxEv /\ ts > 0 /\ Schedule(Fresh, ts, Fresh)
                         \/ ts <= 0 /\ Schedule(0, ts, 0)
    \/ \E id \in 0..MaxEv : Cancel(id)
    \/ \E t \in Times : Query(t)
    \/ \E t \in Times : Len(fr) < MaxDepth /\ ProcBegin(t)
    \/ \E id \in Ids : Fire(id, id)
    \/ CbEnd
    \/ ProcEnd
    \/ Free
Spec == Init /\ [][Next]_vars
\* a count only matters to its own frame; bound it
Bound == \A i \in 1..Len(fr) : fr[i].cnt <= MaxEv + 1
Abs == <<pend, fr, open>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* nothing fires early, or after being cancelled, or twice; nothing due is left behind
NotEarly == [][(act'.op = "fire") => (Head(pend).ts <= Head(fr).now /\ act'.id \notin {e.id : e \in {pend'[i] : i \in 1..Len(pend')}})]_vars
NoneLeft == [][(act'.op = "processed") => \A i \in 1..Len(pend) : pend[i].ts > Head(fr).now]_vars
=============================================================================
