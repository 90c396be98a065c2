----------------------------- MODULE MCObjPool ------------------------------
EXTENDS ObjPool, Json
CONSTANTS Handles, RcMax
Slot(q) == CHOOSE s \in 0..pools[q].n : (s = pools[q].n /\ Full(q)) \/ (s < pools[q].n /\ Placement(q, s * 8) /\ \A t \in 0..(s-1) : ~Placement(q, t * 8))
Next ==
    \/ pools[1].n = 0 /\ \E c, d \in BOOLEAN : Reset(2, 1, 8, 8, 16, 8, c, d)
    \/ pools[1].n > 0 /\ \E q \in 1..2 : Again(q, pools[q].n, 8, pools[q].inst)
    \/ \E h \in Handles, q \in 1..2 : h \notin DOMAIN dead /\ pools[q].n > 0 /\ Alloc(h, q, Slot(q) * 8)
    \/ \E h \in Handles : (h \in DOMAIN obj /\ obj[h].rc < RcMax) /\ Incr(h, 1)
    \/ \E h \in Handles : Decr(h, 1)
    \/ \E h, g \in Handles : g \notin DOMAIN dead /\ h \in DOMAIN obj /\ DecrNest(h, g, Slot(obj[h].q) * 8)
    \/ \E h \in Handles, w \in {"incr", "decr"} : UseDead(h, w)
Spec == Init /\ [][Next]_vars
Abs == <<pools, obj, dead>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* an object leaves its pool's books exactly when its count reaches zero
Released == [][\A h \in DOMAIN obj : (h \notin DOMAIN obj' /\ act'.op # "again") => (act'.op \in {"decr", "decrn"} /\ obj[h].rc = 1 /\ act'.ret)]_vars
=============================================================================
