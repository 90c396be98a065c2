------------------------------- MODULE MCPool -------------------------------
EXTENDS Pool, Json
CONSTANTS Handles, Counts, Size
\* smallest free slot: one representative placement (the trace spec accepts all)
Slot == CHOOSE s \in 0..p.n : (s = p.n /\ Full) \/ (s < p.n /\ Placement(s * Size) /\ \A t \in 0..(s-1) : ~Placement(t * Size))
Next ==
    \/ p.n = 0 /\ \E n \in Counts : Reset(n, Size, n * Size)
    \/ \E h \in Handles, safe \in BOOLEAN : Alloc(h, safe, Slot * Size)
    \/ \E h \in Handles : Free(h)
    \/ p.n > 0 /\ \E n \in Counts : n <= p.n /\ Again(n, Size, n * Size)
    \/ IsEmpty
Spec == Init /\ [][Next]_vars
Abs == <<p, live>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* a full pool always refuses, a pool with room never does
Refuses == [][(act'.op = "alloc") => ((act'.off < 0) <=> Full)]_vars
=============================================================================
