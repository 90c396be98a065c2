------------------------------ MODULE MCIntMap ------------------------------
EXTENDS IntMap, Json
CONSTANTS Keys, Vals, Iters
Next ==
    \/ ~open /\ act.op = "init" /\ \E s \in {1, 8} : Reset(s, 0)
    \/ \E k \in Keys, v \in Vals : Put(k, v, TRUE)
    \/ \E k \in Keys : Get(k) \/ Remove(k, TRUE)
    \/ \E i \in Iters : IterNew(i) \/ IterEnd(i) \/ IterFree(i)
    \/ \E i \in Iters, k \in Keys : IterNext(i, k)
    \/ Free
Spec == Init /\ [][Next]_vars
Abs == <<m, open, IF open THEN 0 ELSE 1, [i \in DOMAIN it |-> <<it[i].must, it[i].may>>]>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* no entry is ever visited twice by one iterator unless removed and put again
NoRepeat == [][\A i \in DOMAIN it \cap DOMAIN it' : (act'.op = "iter_next" /\ act'.rc = 0 /\ act'.i = i) =>
                 /\ act'.k \in DOMAIN m /\ act'.k \notin it'[i].must /\ act'.k \notin it'[i].may]_vars
=============================================================================
