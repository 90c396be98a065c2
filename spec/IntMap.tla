------------------------------- MODULE IntMap -------------------------------
(* Integer-keyed map with iterators (include/embc/collections/intmap.h).      *)
(* An iterator owes every entry that was present when it was created and has  *)
(* not been removed since; entries put later may or may not be visited.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES m,    \* key -> value
          it,   \* iterator -> [must: keys owed, may: keys added since and not visited]
          open, \* a map exists
          act
vars == <<m, it, open, act>>
Init == m = << >> /\ it = << >> /\ open = FALSE /\ act = [op |-> "init"]
NOTFOUND == 16
Len_ == Cardinality(DOMAIN m)
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Reset(stride, base) == /\ m' = << >> /\ it' = << >> /\ open' = TRUE
                       /\ act' = [op |-> "reset", stride |-> stride, base |-> base, len |-> 0]
Put(k, v, ask) ==
    /\ open
    /\ m' = (k :> v) @@ m
    /\ it' = IF k \in DOMAIN m THEN it
             ELSE [i \in DOMAIN it |-> [it[i] EXCEPT !.may = @ \cup {k}]]
    /\ act' = [op |-> "put", k |-> k, v |-> v, ask |-> ask, rc |-> 0,
               old |-> IF ask /\ k \in DOMAIN m THEN m[k] ELSE 0, len |-> Cardinality(DOMAIN m \cup {k})]
    /\ UNCHANGED open
Get(k) ==
    /\ open /\ UNCHANGED <<m, it, open>>
    /\ act' = [op |-> "get", k |-> k, rc |-> IF k \in DOMAIN m THEN 0 ELSE NOTFOUND,
               v |-> IF k \in DOMAIN m THEN m[k] ELSE 0, len |-> Len_]
Remove(k, ask) ==
    /\ open
    /\ m' = Drop(m, k)
    /\ it' = [i \in DOMAIN it |-> [must |-> it[i].must \ {k}, may |-> it[i].may \ {k}]]
    /\ act' = [op |-> "remove", k |-> k, ask |-> ask, rc |-> IF k \in DOMAIN m THEN 0 ELSE NOTFOUND,
               old |-> IF ask /\ k \in DOMAIN m THEN m[k] ELSE 0, len |-> Cardinality(DOMAIN m \ {k})]
    /\ UNCHANGED open
\* many at once
In(k, a, b, st) == k >= a /\ k <= b /\ (k - a) % st = 0
Stepped(a, b, st) == {a + st * j : j \in 0..((b - a) \div st)}
Bulk(a, b, st) ==
    LET d == DOMAIN m
        old == Cardinality({k \in d : In(k, a, b, st)})
    IN
    /\ open
    /\ m' = [k \in d \cup Stepped(a, b, st) |-> IF In(k, a, b, st) THEN (k % 97) + 1 ELSE m[k]]
    /\ it' = [i \in DOMAIN it |-> [it[i] EXCEPT !.may = @ \cup (Stepped(a, b, st) \ d)]]
    /\ act' = [op |-> "bulk", a |-> a, b |-> b, step |-> st, bad |-> 0, old |-> old,
               len |-> Cardinality(d) + Cardinality(Stepped(a, b, st)) - old]
    /\ UNCHANGED open
BulkRemove(a, b, st) ==
    LET d == DOMAIN m
        n == Cardinality({k \in d : In(k, a, b, st)})
        Rest(S) == {k \in S : ~In(k, a, b, st)}
    IN
    /\ open
    /\ m' = [k \in Rest(d) |-> m[k]]
    /\ it' = [i \in DOMAIN it |-> [must |-> Rest(it[i].must), may |-> Rest(it[i].may)]]
    /\ act' = [op |-> "bulkrm", a |-> a, b |-> b, step |-> st, found |-> n, len |-> Cardinality(d) - n]
    /\ UNCHANGED open
Sweep(a, n) ==
    /\ open /\ UNCHANGED <<m, it, open>>
    /\ act' = [op |-> "sweep", a |-> a,
               v |-> LET d == DOMAIN m IN [j \in 1..n |-> IF a + j - 1 \in d THEN m[a + j - 1] ELSE -NOTFOUND]]
IterKeys(i, ks) ==
    LET s == {ks[j] : j \in DOMAIN ks} IN
    /\ open /\ i \in DOMAIN it
    /\ Cardinality(s) = Len(ks) /\ it[i].must \subseteq s /\ s \subseteq it[i].must \cup it[i].may
    /\ it' = [it EXCEPT ![i] = [must |-> {}, may |-> @.may \ s]]
    /\ act' = [op |-> "iter_keys", i |-> i, ks |-> ks]
    /\ UNCHANGED <<m, open>>
IterNew(i) ==
    /\ open /\ i \notin DOMAIN it
    /\ it' = (i :> [must |-> DOMAIN m, may |-> {}]) @@ it
    /\ act' = [op |-> "iter_new", i |-> i]
    /\ UNCHANGED <<m, open>>
\* either the next entry, with its current value, or the end once nothing is owed
IterNext(i, k) ==
    /\ open /\ i \in DOMAIN it /\ k \in (it[i].must \cup it[i].may)
    /\ it' = [it EXCEPT ![i] = [must |-> @.must \ {k}, may |-> @.may \ {k}]]
    /\ act' = [op |-> "iter_next", i |-> i, rc |-> 0, k |-> k, v |-> m[k]]
    /\ UNCHANGED <<m, open>>
IterEnd(i) ==
    /\ open /\ i \in DOMAIN it /\ it[i].must = {}
    /\ act' = [op |-> "iter_next", i |-> i, rc |-> NOTFOUND, k |-> 0, v |-> 0]
    /\ UNCHANGED <<m, it, open>>
IterFree(i) ==
    /\ open /\ i \in DOMAIN it
    /\ it' = Drop(it, i)
    /\ act' = [op |-> "iter_free", i |-> i]
    /\ UNCHANGED <<m, open>>
\* every block the map ever allocated has been given back
Free ==
    /\ open /\ DOMAIN it = {}
    /\ m' = << >> /\ it' = << >> /\ open' = FALSE
    /\ act' = [op |-> "free", leaked |-> 0]
Owed == \A i \in DOMAIN it : (it[i].must \cup it[i].may) \subseteq DOMAIN m
=============================================================================
