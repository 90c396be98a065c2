------------------------------ MODULE BufAlloc ------------------------------
(* Message-buffer allocator: size classes of 32, 64, 128, ... byte payloads,  *)
(* a fixed number of buffers in each (include/embc/memory/buffer.h).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cnt,   \* <<number of buffers in class 1, 2, ...>>; <<>> before the first reset
          inst,  \* instance size in bytes
          live,  \* handle -> [k: class, off: payload offset in the instance, hoff: header offset]
          act
vars == <<cnt, inst, live, act>>
Init == cnt = << >> /\ inst = 0 /\ live = << >> /\ act = [op |-> "init"]
Payload(k) == 32 * 2^(k - 1)
Largest == Payload(Len(cnt))
Class(size) == CHOOSE k \in 1..Len(cnt) : Payload(k) >= size /\ (k = 1 \/ Payload(k - 1) < size)
Out(k) == Cardinality({h \in DOMAIN live : live[h].k = k})
RECURSIVE Total(_)
Total(s) == IF s = << >> THEN 0 ELSE Head(s) + Total(Tail(s))
Disjoint(a, la, b, lb) == a + la <= b \/ b + lb <= a
Clear(off, len) == /\ off >= 0 /\ off + len <= inst
                   /\ \A g \in DOMAIN live : /\ Disjoint(off, len, live[g].off, Payload(live[g].k))
                                             /\ Disjoint(off, len, live[g].hoff, live[g].hsz)

Reset(c, sz) ==
    /\ Len(c) >= 1
    /\ cnt' = c /\ inst' = sz /\ live' = << >>
    /\ act' = [op |-> "reset", cnt |-> c, inst |-> sz]

\* with every buffer returned, the memory is made into another allocator
Again(c, sz) ==
    /\ cnt # << >> /\ Len(c) >= 1
    /\ cnt' = c /\ inst' = sz /\ live' = << >>
    /\ act' = [op |-> "again", cnt |-> c, inst |-> sz]

\* off: -1 null (class exhausted), -2 fatal assertion.  A fresh buffer is empty and unmarked.
Alloc(h, safe, size, off, hoff, hsz) ==
    /\ cnt # << >> /\ h \notin DOMAIN live
    /\ IF size <= 0 \/ size > Largest
       THEN live' = live /\ act' = [op |-> "alloc", h |-> h, safe |-> safe, size |-> size, off |-> -2,
                                    hoff |-> 0, hsz |-> 0, cap |-> 0, meta |-> <<0, 0, 0, 0, 0>>, intact |-> TRUE]
       ELSE LET k == Class(size)
            IN IF Out(k) = cnt[k]
               THEN live' = live /\ act' = [op |-> "alloc", h |-> h, safe |-> safe, size |-> size,
                                            off |-> IF safe THEN -2 ELSE -1, hoff |-> 0, hsz |-> 0, cap |-> 0,
                                            meta |-> <<0, 0, 0, 0, 0>>, intact |-> TRUE]
               ELSE /\ Clear(off, Payload(k)) /\ Clear(hoff, hsz) /\ Disjoint(off, Payload(k), hoff, hsz)
                    /\ live' = (h :> [k |-> k, off |-> off, hoff |-> hoff, hsz |-> hsz]) @@ live
                    /\ act' = [op |-> "alloc", h |-> h, safe |-> safe, size |-> size, off |-> off, hoff |-> hoff,
                               hsz |-> hsz, cap |-> Payload(k), meta |-> <<0, 0, 0, 0, 0>>, intact |-> TRUE]
    /\ UNCHANGED <<cnt, inst>>

Free(h) ==
    /\ h \in DOMAIN live
    /\ live' = [g \in DOMAIN live \ {h} |-> live[g]]
    /\ act' = [op |-> "free", h |-> h, intact |-> TRUE]
    /\ UNCHANGED <<cnt, inst>>

Exclusive == \A g, h \in DOMAIN live : g # h => Disjoint(live[g].off, Payload(live[g].k), live[h].off, Payload(live[h].k))
Capacity == \A k \in 1..Len(cnt) : Out(k) <= cnt[k]
=============================================================================
