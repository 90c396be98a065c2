------------------------------- MODULE StrMap -------------------------------
(* String-keyed map and caller-hashed map                                     *)
(* (include/embc/collections/strmap.h, hashmap.h).  Both are a finite map;    *)
(* keys compare by content (strings) or by the caller's equivalence, whatever *)
(* the hash says.  kind "str" supports removal; kind "hash" does not.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES m, kind, act
vars == <<m, kind, act>>
Init == m = << >> /\ kind = "" /\ act = [op |-> "init"]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Reset(kd, hv) == /\ m' = << >> /\ kind' = kd /\ act' = [op |-> "reset", kind |-> kd, hv |-> hv, len |-> 0]
Put(k, v, ask) ==
    /\ kind # ""
    /\ m' = (k :> v) @@ m
    /\ act' = [op |-> "put", k |-> k, v |-> v, ask |-> ask, ok |-> TRUE,
               old |-> IF ask /\ k \in DOMAIN m THEN m[k] ELSE 0, len |-> Cardinality(DOMAIN m \cup {k})]
    /\ UNCHANGED kind
Get(k) ==
    /\ kind # "" /\ UNCHANGED <<m, kind>>
    /\ act' = [op |-> "get", k |-> k, ok |-> k \in DOMAIN m, v |-> IF k \in DOMAIN m THEN m[k] ELSE 0, len |-> Cardinality(DOMAIN m)]
Remove(k, ask) ==
    /\ kind = "str"
    /\ m' = Drop(m, k)
    /\ act' = [op |-> "remove", k |-> k, ask |-> ask, ok |-> k \in DOMAIN m,
               old |-> IF ask /\ k \in DOMAIN m THEN m[k] ELSE 0, len |-> Cardinality(DOMAIN m \ {k})]
    /\ UNCHANGED kind
\* many keys at once: every key from a to b stored (n of them were there), removed (n were there), looked up
Bulk(a, b) ==
    LET d == DOMAIN m
        n == Cardinality({k \in d : k >= a /\ k <= b})
    IN
    /\ kind # ""
    /\ m' = [k \in d \cup (a..b) |-> IF k >= a /\ k <= b THEN (k % 97) + 1 ELSE m[k]]
    /\ act' = [op |-> "bulk", a |-> a, b |-> b, bad |-> 0, n |-> n, len |-> Cardinality(d) + (b - a + 1) - n]
    /\ UNCHANGED kind
BulkRemove(a, b) ==
    LET d == DOMAIN m
        n == Cardinality({k \in d : k >= a /\ k <= b})
    IN
    /\ kind = "str"
    /\ m' = [k \in {x \in d : x < a \/ x > b} |-> m[k]]
    /\ act' = [op |-> "bulkrm", a |-> a, b |-> b, bad |-> 0, n |-> n, len |-> Cardinality(d) - n]
    /\ UNCHANGED kind
Sweep(a, n) ==
    /\ kind # "" /\ UNCHANGED <<m, kind>>
    /\ act' = [op |-> "sweep", a |-> a, len |-> Cardinality(DOMAIN m),
               v |-> LET d == DOMAIN m IN [j \in 1..n |-> IF a + j - 1 \in d THEN m[a + j - 1] ELSE -1]]
Free == /\ kind # "" /\ m' = << >> /\ kind' = "" /\ act' = [op |-> "free", leaked |-> 0]
Sane == kind = "" => m = << >>
=============================================================================
