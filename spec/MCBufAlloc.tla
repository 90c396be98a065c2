----------------------------- MODULE MCBufAlloc -----------------------------
EXTENDS BufAlloc, Json
CONSTANTS Handles
HS == 48
Base(k) == Total([i \in 1..(k-1) |-> cnt[i] * (HS + Payload(i))])
Slot(k, s) == Base(k) + (s - 1) * (HS + Payload(k))
Free1(k) == IF \E s \in 1..cnt[k] : Clear(Slot(k, s), HS + Payload(k))
            THEN CHOOSE s \in 1..cnt[k] : Clear(Slot(k, s), HS + Payload(k)) /\ \A t \in 1..(s-1) : ~Clear(Slot(k, t), HS + Payload(k))
            ELSE 0
At(size) == IF size <= 0 \/ size > Largest THEN 0 ELSE LET k == Class(size) IN IF Free1(k) = 0 THEN 0 ELSE Slot(k, Free1(k))
Next ==
    \/ cnt = << >> /\ \E c \in {<<2>>, <<1, 2>>, <<0, 1, 1>>} : Reset(c, Total([i \in 1..Len(c) |-> c[i] * (HS + 32 * 2^(i-1))]))
    \/ cnt # << >> /\ Again(cnt, inst)
    \/ cnt # << >> /\ \E h \in Handles, size \in {0, 1, 32, 33, 64, 65, 128, 129}, safe \in BOOLEAN :
            Alloc(h, safe, size, At(size) + HS, At(size), HS)
    \/ \E h \in Handles : Free(h)
Spec == Init /\ [][Next]_vars
Abs == <<cnt, inst, live>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
=============================================================================
