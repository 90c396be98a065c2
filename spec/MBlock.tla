------------------------------- MODULE MBlock -------------------------------
(* Variable-size allocator over fixed-size blocks (include/embc/memory/block.h). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES p,     \* [mem, bs, n]: bytes managed, block size, number of blocks
          live,  \* handle -> [first, cnt, size]: the blocks of an allocation
          act
vars == <<p, live, act>>
Init == p = [mem |-> 0, bs |-> 1, n |-> 0] /\ live = << >> /\ act = [op |-> "init"]
BlocksOf(size) == (size + p.bs - 1) \div p.bs
Apart(b, k, a) == b + k <= a.first \/ a.first + a.cnt <= b
RunFree(b, k) == b >= 0 /\ b + k <= p.n /\ \A h \in DOMAIN live : Apart(b, k, live[h])
\* a free run can be moved down until it meets an allocation or the start
Fits(k) == \E b \in {0} \cup {live[h].first + live[h].cnt : h \in DOMAIN live} : RunFree(b, k)

Reset(mem, bs) ==
    /\ mem > 0 /\ bs > 0
    /\ p' = [mem |-> mem, bs |-> bs, n |-> mem \div bs]
    /\ live' = << >>
    /\ act' = [op |-> "reset", mem |-> mem, bs |-> bs, ret |-> 0]

\* An allocation succeeds exactly when some run of free blocks is long enough.
\* The run chosen is open; off -1: null, -2: fatal (asserting variant).
\* given up and made anew over the same memory: every block is free
Again(mem, bs) ==
    /\ p.mem > 0 /\ mem > 0 /\ bs > 0
    /\ p' = [mem |-> mem, bs |-> bs, n |-> mem \div bs]
    /\ live' = << >>
    /\ act' = [op |-> "again", mem |-> mem, bs |-> bs, ret |-> 0]

Alloc(h, safe, size, off) ==
    /\ p.n >= 0 /\ h \notin DOMAIN live /\ size > 0
    /\ LET k == BlocksOf(size)
       IN IF Fits(k)
          THEN /\ off >= 0 /\ off % p.bs = 0 /\ RunFree(off \div p.bs, k)
               /\ live' = (h :> [first |-> off \div p.bs, cnt |-> k, size |-> size]) @@ live
               /\ act' = [op |-> "alloc", h |-> h, safe |-> safe, size |-> size, off |-> off, intact |-> TRUE]
          ELSE /\ live' = live
               /\ act' = [op |-> "alloc", h |-> h, safe |-> safe, size |-> size, off |-> IF safe THEN -2 ELSE -1, intact |-> TRUE]
    /\ UNCHANGED p

Free(h) ==
    /\ h \in DOMAIN live
    /\ live' = [g \in DOMAIN live \ {h} |-> live[g]]
    /\ act' = [op |-> "free", h |-> h, intact |-> TRUE]
    /\ UNCHANGED p

\* Misuse stops fatally and changes nothing: a size that is not positive (kind "size"), freeing memory outside
\* the managed memory ("outside") or a run whose first block is not allocated ("notalloc").
Taken(b) == \E h \in DOMAIN live : b >= live[h].first /\ b < live[h].first + live[h].cnt
Misuse(kind, off, size) ==
    /\ p.n >= 0
    /\ CASE kind = "size" -> size <= 0
         [] kind = "outside" -> size > 0 /\ (off < 0 \/ off >= p.mem)
         [] kind = "notalloc" -> size > 0 /\ off >= 0 /\ off < p.n * p.bs /\ ~Taken(off \div p.bs)
         [] OTHER -> FALSE
    /\ act' = [op |-> "misuse", kind |-> kind, off |-> off, size |-> size, fatal |-> TRUE, intact |-> TRUE]
    /\ UNCHANGED <<p, live>>

Exclusive == \A g, h \in DOMAIN live : g # h =>
                live[g].first + live[g].cnt <= live[h].first \/ live[h].first + live[h].cnt <= live[g].first
Inside == \A h \in DOMAIN live : live[h].first >= 0 /\ (live[h].first + live[h].cnt) * p.bs <= p.mem
\* Fits is what it says
AnyRun(k) == \E b \in 0..(p.n - k) : \A i \in b..(b + k - 1) : ~Taken(i)
FitsAny == \A k \in 1..(p.n + 1) : Fits(k) = AnyRun(k)
BigEnough == \A h \in DOMAIN live : live[h].cnt * p.bs >= live[h].size
=============================================================================
