-------------------------------- MODULE List --------------------------------
(* Intrusive doubly-linked lists (include/embc/collections/list.h): NL lists  *)
(* over a common set of items.  An item is in at most one list; every         *)
(* insertion takes it out of wherever it was.                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES L,    \* sequence of lists, each a sequence of items
          n,    \* number of items
          act
vars == <<L, n, act>>
Init == L = << >> /\ n = 0 /\ act = [op |-> "init"]
Without(i) == [k \in 1..Len(L) |-> SelectSeq(L[k], LAMBDA x : x # i)]
In(k, i) == \E j \in 1..Len(L[k]) : L[k][j] = i
Home(i) == IF \E k \in 1..Len(L) : In(k, i) THEN CHOOSE k \in 1..Len(L) : In(k, i) ELSE 0
Pos(k, i) == CHOOSE j \in 1..Len(L[k]) : L[k][j] = i
\* every event reports all lists walked forwards (fw) and backwards (rv)
Log(r) == act' = r @@ [fw |-> L', rv |-> [k \in 1..Len(L') |-> Reverse(L'[k])]]

Reset(nl, ni) == /\ L' = [k \in 1..nl |-> << >>] /\ n' = ni /\ Log([op |-> "reset", ni |-> ni])
AddHead(k, i) == /\ L' = [Without(i) EXCEPT ![k] = <<i>> \o @] /\ Log([op |-> "add_head", k |-> k, i |-> i]) /\ UNCHANGED n
AddTail(k, i) == /\ L' = [Without(i) EXCEPT ![k] = Append(@, i)] /\ Log([op |-> "add_tail", k |-> k, i |-> i]) /\ UNCHANGED n
\* a whole range of new items at once
Fill(k, a, b) == /\ \A j \in 1..Len(L) : \A x \in 1..Len(L[j]) : L[j][x] < a \/ L[j][x] > b
                 /\ L' = [L EXCEPT ![k] = @ \o [x \in 1..(b - a + 1) |-> a + x - 1]]
                 /\ Log([op |-> "fill", k |-> k, a |-> a, b |-> b]) /\ UNCHANGED n
RemoveHead(k) == /\ L' = IF L[k] = << >> THEN L ELSE [L EXCEPT ![k] = Tail(@)]
                 /\ Log([op |-> "remove_head", k |-> k, ret |-> IF L[k] = << >> THEN 0 ELSE Head(L[k])]) /\ UNCHANGED n
RemoveTail(k) == /\ L' = IF L[k] = << >> THEN L ELSE [L EXCEPT ![k] = Front(@)]
                 /\ Log([op |-> "remove_tail", k |-> k, ret |-> IF L[k] = << >> THEN 0 ELSE Last(L[k])]) /\ UNCHANGED n
Unlink(i) == /\ L' = Without(i) /\ Log([op |-> "remove", i |-> i]) /\ UNCHANGED n
InsertBefore(p, i) ==
    /\ Home(p) # 0 /\ p # i
    /\ LET k == Home(p)
           w == Without(i)
           j == CHOOSE x \in 1..Len(w[k]) : w[k][x] = p
       IN L' = [w EXCEPT ![k] = SubSeq(@, 1, j - 1) \o <<i>> \o SubSeq(@, j, Len(@))]
    /\ Log([op |-> "insert_before", p |-> p, i |-> i]) /\ UNCHANGED n
InsertAfter(p, i) ==
    /\ Home(p) # 0 /\ p # i
    /\ LET k == Home(p)
           w == Without(i)
           j == CHOOSE x \in 1..Len(w[k]) : w[k][x] = p
       IN L' = [w EXCEPT ![k] = SubSeq(@, 1, j) \o <<i>> \o SubSeq(@, j + 1, Len(@))]
    /\ Log([op |-> "insert_after", p |-> p, i |-> i]) /\ UNCHANGED n
\* move everything in list s to the end of list k; s becomes empty
AppendAll(k, s) ==
    /\ k # s
    /\ L' = [L EXCEPT ![k] = @ \o L[s], ![s] = << >>]
    /\ Log([op |-> "append", k |-> k, s |-> s]) /\ UNCHANGED n
\* all read-only queries at once
Query(k, i, x) ==
    /\ UNCHANGED <<L, n>>
    /\ Log([op |-> "query", k |-> k, i |-> i, x |-> x, len |-> Len(L[k]), empty |-> L[k] = << >>,
            head |-> IF L[k] = << >> THEN 0 ELSE Head(L[k]), tail |-> IF L[k] = << >> THEN 0 ELSE Last(L[k]),
            contains |-> In(k, i), index_of |-> IF In(k, i) THEN Pos(k, i) - 1 ELSE -1,
            at |-> IF x >= 0 /\ x < Len(L[k]) THEN L[k][x + 1] ELSE 0])
\* traverse list k, removing the items of rm as they are visited (safe variants only)
Iterate(k, rev, safe, rm) ==
    /\ ~safe => rm = << >>
    /\ L' = [L EXCEPT ![k] = SelectSeq(@, LAMBDA y : ~Contains(rm, y))]
    /\ Log([op |-> "iterate", k |-> k, rev |-> rev, safe |-> safe, rm |-> rm,
            visit |-> IF rev THEN Reverse(L[k]) ELSE L[k]])
    /\ UNCHANGED n

OnePlace == LET items == UNION {{L[k][j] : j \in 1..Len(L[k])} : k \in 1..Len(L)}
                total[k \in 0..Len(L)] == IF k = 0 THEN 0 ELSE total[k - 1] + Len(L[k])
            IN Cardinality(items) = total[Len(L)] /\ items \subseteq 1..n
Known == \A k \in 1..Len(L) : Len(L[k]) <= n
=============================================================================
