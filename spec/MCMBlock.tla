------------------------------ MODULE MCMBlock ------------------------------
EXTENDS MBlock, Json
CONSTANTS Handles, Mems, BS
First(k) == IF Fits(k) THEN CHOOSE b \in 0..(p.n - 1) : RunFree(b, k) /\ \A c \in 0..(b-1) : ~RunFree(c, k) ELSE -1
Sizes == {1, BS + 1, 3 * BS, 5 * BS + 1}
Next ==
    \/ p.n = 0 /\ \E m \in Mems : Reset(m, BS)
    \/ p.n > 0 /\ \E m \in Mems : m <= p.mem /\ Again(m, BS)
    \/ p.n > 0 /\ \E h \in Handles, s \in Sizes, safe \in BOOLEAN : Alloc(h, safe, s, First(BlocksOf(s)) * BS)
    \/ \E h \in Handles : Free(h)
    \/ p.n > 0 /\ \E s \in {0, -1} : Misuse("size", 0, s)
    \/ p.n > 0 /\ \E o \in {-1, p.mem} : Misuse("outside", o, 1)
    \/ p.n > 0 /\ \E b \in 0..(p.n - 1) : Misuse("notalloc", b * BS, BS)
Spec == Init /\ [][Next]_vars
Abs == <<p, live>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* freeing makes room: whatever was refused fits again once the memory is empty
EmptyFits == DOMAIN live = {} => \A s \in Sizes : BlocksOf(s) <= p.n => Fits(BlocksOf(s))
=============================================================================
