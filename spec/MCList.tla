------------------------------- MODULE MCList -------------------------------
EXTENDS List, Json
CONSTANTS NI
I == 1..NI
K == 1..2
Next ==
    \/ n = 0 /\ Reset(2, NI)
    \/ n > 0 /\ (\/ \E k \in K, i \in I : AddHead(k, i) \/ AddTail(k, i)
                 \/ \E k \in K : RemoveHead(k) \/ RemoveTail(k) \/ AppendAll(k, 3 - k)
                 \/ \E i \in I : Unlink(i)
                 \/ \E p, i \in I : InsertBefore(p, i) \/ InsertAfter(p, i)
                 \/ \E k \in K, i \in I : Query(k, i, i - 1)
                 \/ \E k \in K, rev \in BOOLEAN, rm \in {<< >>, <<1>>, <<2, 3>>} : Iterate(k, rev, TRUE, rm)
                 \/ \E k \in K, rev \in BOOLEAN : Iterate(k, rev, FALSE, << >>))
Spec == Init /\ [][Next]_vars
Abs == <<L, n>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
=============================================================================
