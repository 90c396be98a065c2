------------------------------ MODULE MCStrMap ------------------------------
EXTENDS StrMap, Json
CONSTANTS Keys, Vals
Next ==
    \/ kind = "" /\ act.op = "init" /\ \E kd \in {"str", "hash"}, hv \in {0, 1, 2} : Reset(kd, hv)
    \/ \E k \in Keys, v \in Vals : Put(k, v, TRUE)
    \/ \E k \in Keys : Get(k) \/ Remove(k, TRUE)
    \/ Free
Spec == Init /\ [][Next]_vars
HV == IF act.op = "reset" THEN act.hv ELSE 9
Abs == <<m, kind>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
=============================================================================
