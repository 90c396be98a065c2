-------------------------------- MODULE Pool --------------------------------
(* Fixed-size block pool (include/embc/memory/pool.h).                        *)
(* One action per public call.  `live' maps every outstanding handle to the   *)
(* byte offset of its block in the instance memory.  Which free block an      *)
(* allocation returns is deliberately left open: any placement is accepted    *)
(* that is aligned, inside the instance and disjoint from every live block.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES p,     \* pool parameters: [n, size, inst] (inst = instance bytes), n = 0: none
          live,  \* handle -> offset
          act    \* last call with its arguments and results
vars == <<p, live, act>>

None == [n |-> 0, size |-> 0, inst |-> 0]
Init == /\ p = None
        /\ live = << >>
        /\ act = [op |-> "init"]

Used == Cardinality(DOMAIN live)
Full == Used = p.n
Intact(h) == TRUE

Disjoint(a, b, size) == a + size <= b \/ b + size <= a
Placement(off) == /\ off >= 0
                  /\ off + p.size <= p.inst
                  /\ \A g \in DOMAIN live : Disjoint(off, live[g], p.size)

\* reset: a new pool of n blocks of `size' bytes in `inst' bytes of memory
Reset(n, size, inst) ==
    /\ n > 0 /\ size > 0 /\ inst >= n * size
    /\ p' = [n |-> n, size |-> size, inst |-> inst]
    /\ live' = << >>
    /\ act' = [op |-> "reset", n |-> n, size |-> size, inst |-> inst, ret |-> 0]

\* the pool is given up and its memory, whatever it holds by now, is made into a new one
Again(n, size, inst) ==
    /\ p.n > 0 /\ n > 0 /\ size > 0 /\ inst >= n * size
    /\ p' = [n |-> n, size |-> size, inst |-> inst]
    /\ live' = << >>
    /\ act' = [op |-> "again", n |-> n, size |-> size, inst |-> inst, ret |-> 0]

\* alloc (asserting) and alloc_unsafe; res is the offset, -1 for null, -2 for a fatal assertion
Alloc(h, safe, off) ==
    /\ p.n > 0 /\ h \notin DOMAIN live
    /\ IF Full
       THEN /\ live' = live
            /\ act' = [op |-> "alloc", h |-> h, safe |-> safe,
                       off |-> IF safe THEN -2 ELSE -1, align |-> 0, intact |-> TRUE]
       ELSE /\ Placement(off)
            /\ live' = (h :> off) @@ live
            /\ act' = [op |-> "alloc", h |-> h, safe |-> safe, off |-> off, align |-> 0, intact |-> TRUE]
    /\ UNCHANGED p

Free(h) ==
    /\ h \in DOMAIN live
    /\ live' = [g \in DOMAIN live \ {h} |-> live[g]]
    /\ act' = [op |-> "free", h |-> h, intact |-> TRUE]
    /\ UNCHANGED p

\* every block that is left, taken and given back: off are their places in ascending order
Drain(rev, off) ==
    /\ p.n > 0 /\ Len(off) = p.n - Used
    /\ (\A i \in 1..Len(off) :
            (off[i] >= (IF i = 1 THEN 0 ELSE off[i - 1] + p.size)) /\ Placement(off[i]) /\ off[i] % 8 = 0) = TRUE
    /\ act' = [op |-> "drain", rev |-> rev, off |-> off, intact |-> TRUE]
    /\ UNCHANGED <<p, live>>

IsEmpty ==
    /\ p.n > 0
    /\ act' = [op |-> "is_empty", ret |-> IF Full THEN 1 ELSE 0]
    /\ UNCHANGED <<p, live>>

\* every block stays exclusively owned, and the pool never holds more or fewer blocks than made
Exclusive == \A g, h \in DOMAIN live : g # h => Disjoint(live[g], live[h], p.size)
Inside == \A g \in DOMAIN live : live[g] >= 0 /\ live[g] + p.size <= p.inst
Capacity == Used <= p.n
=============================================================================
