------------------------------ MODULE ObjPool -------------------------------
(* Reference-counted object pools (include/embc/memory/object_pool.h).        *)
(* Two pools exist at once, so an object must find its way back to its own.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pools,  \* <<pool 1, pool 2>>, each [n, size, inst, ctor, dtor]
          obj,    \* handle -> [q: pool, off: offset in the pool instance, rc: reference count]
          dead,   \* handles whose object went back to its pool and has not been handed out again
          act
vars == <<pools, obj, dead, act>>
MaxRc == 65535
NoPool == [n |-> 0, size |-> 0, inst |-> 0, ctor |-> FALSE, dtor |-> FALSE]
Init == pools = <<NoPool, NoPool>> /\ obj = << >> /\ dead = << >> /\ act = [op |-> "init"]

Of(q) == {h \in DOMAIN obj : obj[h].q = q}
Full(q) == Cardinality(Of(q)) = pools[q].n
Disjoint(a, b, size) == a + size <= b \/ b + size <= a
Placement(q, off) == /\ off >= 0 /\ off + pools[q].size <= pools[q].inst
                     /\ \A g \in Of(q) : Disjoint(off, obj[g].off, pools[q].size)
Drop(f, h) == [g \in DOMAIN f \ {h} |-> f[g]]

Reset(n1, n2, size1, size2, inst1, inst2, ctor, dtor) ==
    /\ n1 > 0 /\ n2 > 0 /\ inst1 >= n1 * size1 /\ inst2 >= n2 * size2
    /\ pools' = <<[n |-> n1, size |-> size1, inst |-> inst1, ctor |-> ctor, dtor |-> dtor],
                  [n |-> n2, size |-> size2, inst |-> inst2, ctor |-> ctor, dtor |-> dtor]>>
    /\ obj' = << >> /\ dead' = << >>
    /\ act' = [op |-> "reset", n1 |-> n1, n2 |-> n2, size1 |-> size1, size2 |-> size2, inst1 |-> inst1,
               inst2 |-> inst2, ctor |-> ctor, dtor |-> dtor, ret |-> 0]

\* pool q is given up and its memory made into a new one; the other pool is not touched
Again(q, n, size, inst) ==
    /\ pools[q].n > 0 /\ n > 0 /\ size > 0 /\ inst >= n * size
    /\ pools' = [pools EXCEPT ![q].n = n, ![q].size = size, ![q].inst = inst]
    /\ obj' = [h \in {g \in DOMAIN obj : obj[g].q # q} |-> obj[h]]
    /\ dead' = [h \in {g \in DOMAIN dead : dead[g].q # q} |-> dead[h]]
    /\ act' = [op |-> "again", q |-> q, n |-> n, size |-> size, inst |-> inst, ctors |-> 0, dtors |-> 0, intact |-> TRUE, ret |-> 0]

\* off -2: fatal (pool exhausted).  ctors: constructor calls seen, each on this very object.
\* zero: with no constructor the object arrives zero-filled.
Alloc(h, q, off) ==
    /\ pools[q].n > 0 /\ h \notin DOMAIN obj
    /\ IF Full(q)
       THEN /\ UNCHANGED <<obj, dead>>
            /\ act' = [op |-> "alloc", h |-> h, q |-> q, off |-> -2, ctors |-> 0, dtors |-> 0, zero |-> TRUE, intact |-> TRUE]
       ELSE /\ Placement(q, off)
            /\ obj' = (h :> [q |-> q, off |-> off, rc |-> 1]) @@ obj
            \* an older object in the same place is no longer observably dead
            /\ dead' = [g \in {x \in DOMAIN dead : dead[x].q # q \/ Disjoint(dead[x].off, off, pools[q].size)} |-> dead[g]]
            /\ act' = [op |-> "alloc", h |-> h, q |-> q, off |-> off, ctors |-> IF pools[q].ctor THEN 1 ELSE 0,
                       dtors |-> 0, zero |-> TRUE, intact |-> TRUE]
    /\ UNCHANGED pools

\* n increments at once; the count saturates into a fatal assertion, never wraps
Incr(h, n) ==
    /\ h \in DOMAIN obj /\ n > 0
    /\ LET fatal == obj[h].rc + n > MaxRc
       IN /\ obj' = [obj EXCEPT ![h].rc = IF fatal THEN MaxRc ELSE @ + n]
          /\ act' = [op |-> "incr", h |-> h, n |-> n, fatal |-> fatal]
    /\ UNCHANGED <<pools, dead>>

\* n decrements, none but the last of which may release the object
Decr(h, n) ==
    /\ h \in DOMAIN obj /\ n > 0 /\ n <= obj[h].rc
    /\ LET last == obj[h].rc = n
       IN /\ IF last
             THEN obj' = Drop(obj, h) /\ dead' = (h :> [q |-> obj[h].q, off |-> obj[h].off]) @@ dead
             ELSE obj' = [obj EXCEPT ![h].rc = @ - n] /\ dead' = dead
          /\ act' = [op |-> "decr", h |-> h, n |-> n, ret |-> last, early |-> 0, ctors |-> 0,
                     dtors |-> IF last /\ pools[obj[h].q].dtor THEN 1 ELSE 0, intact |-> TRUE]
    /\ UNCHANGED pools

\* the last reference goes and the destructor takes another object from the same pool:
\* the dying object is still out, so the new one is a different one
DecrNest(h, g, off) ==
    /\ h \in DOMAIN obj /\ g \notin DOMAIN obj /\ g # h /\ obj[h].rc = 1
    /\ LET q == obj[h].q IN
       /\ pools[q].dtor /\ ~Full(q) /\ Placement(q, off)
       /\ obj' = (g :> [q |-> q, off |-> off, rc |-> 1]) @@ Drop(obj, h)
       /\ dead' = (h :> [q |-> q, off |-> obj[h].off]) @@
                  [x \in {y \in DOMAIN dead : dead[y].q # q \/ Disjoint(dead[y].off, off, pools[q].size)} |-> dead[x]]
       /\ act' = [op |-> "decrn", h |-> h, g |-> g, ret |-> TRUE, off |-> off, ctors |-> IF pools[q].ctor THEN 1 ELSE 0,
                  dtors |-> 1, intact |-> TRUE]
    /\ UNCHANGED pools

\* using an object after its release is caught
UseDead(h, which) ==
    /\ h \in DOMAIN dead
    /\ act' = [op |-> "dead", h |-> h, which |-> which, fatal |-> TRUE]
    /\ UNCHANGED <<pools, obj, dead>>

Exclusive == \A g, h \in DOMAIN obj : g # h /\ obj[g].q = obj[h].q => Disjoint(obj[g].off, obj[h].off, pools[obj[g].q].size)
Counted == \A h \in DOMAIN obj : obj[h].rc \in 1..MaxRc
Capacity == \A q \in 1..2 : Cardinality(Of(q)) <= pools[q].n
=============================================================================
