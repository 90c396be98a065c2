---------------------------- MODULE EventManager ----------------------------
(* Timed event scheduling (include/embc/event_manager.h).  Callbacks run in   *)
(* the middle of a process call and may themselves schedule, cancel, query    *)
(* and process: fr is the stack of process calls under way.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pend,  \* pending events in the order they will fire: [id, ts, tag]
          fr,    \* stack (head = innermost): [now, cnt: fired so far, cur: event whose callback runs, 0 none]
          open,  \* a manager exists
          base,  \* the script's time origin (times are relative to it): 0 or large
          act
vars == <<pend, fr, open, base, act>>
Init == pend = << >> /\ fr = << >> /\ open = FALSE /\ base = 0 /\ act = [op |-> "init"]
Ids == {pend[i].id : i \in 1..Len(pend)}
Running == {fr[i].cur : i \in 1..Len(fr)} \ {0}
\* calls can be made from outside, or from inside a callback
Calling == open /\ (IF fr = << >> THEN TRUE ELSE Head(fr).cur # 0)
Insert(e) == LET k == Cardinality({i \in 1..Len(pend) : pend[i].ts <= e.ts})
             IN SubSeq(pend, 1, k) \o <<e>> \o SubSeq(pend, k + 1, Len(pend))
NextAt == IF pend = << >> THEN "none" ELSE pend[1].ts

Reset(b) == /\ pend' = << >> /\ fr' = << >> /\ open' = TRUE /\ base' = b
            /\ act' = [op |-> "reset", base |-> b]
\* a timestamp that is not positive is ignored: id 0
Schedule(tag, ts, id) ==
    /\ Calling
    /\ IF base = 0 /\ ts <= 0
       THEN id = 0 /\ pend' = pend
       ELSE id \notin Running \cup {0} /\ (\A i \in 1..Len(pend) : pend[i].id # id) = TRUE /\ pend' = Insert([id |-> id, ts |-> ts, tag |-> tag])
    /\ act' = [op |-> "schedule", tag |-> tag, ts |-> ts, id |-> id]
    /\ UNCHANGED <<fr, open, base>>
\* many at once, at the times n, n - 1 .. 1; nothing else is pending
Bulk(ids) ==
    /\ Calling /\ pend = << >> /\ fr = << >>
    /\ LET n == Len(ids)
           s == {ids[i] : i \in 1..n}
       IN /\ Cardinality(s) = n /\ 0 \notin s
          /\ pend' = [i \in 1..n |-> [id |-> ids[n + 1 - i], ts |-> i, tag |-> 0]]
    /\ act' = [op |-> "bulk", ids |-> ids]
    /\ UNCHANGED <<fr, open, base>>
\* cancelling what is not pending (fired, cancelled, firing, 0) changes nothing
Cancel(id) ==
    /\ Calling
    /\ pend' = SelectSeq(pend, LAMBDA e : e.id # id)
    /\ act' = [op |-> "cancel", id |-> id, rc |-> 0]
    /\ UNCHANGED <<fr, open, base>>
Query(t) ==
    /\ Calling
    /\ act' = [op |-> "query", t |-> t,
               next |-> IF pend = << >> THEN -2000000000 ELSE pend[1].ts,
               interval |-> IF pend = << >> THEN -1 ELSE IF pend[1].ts <= t THEN 0 ELSE pend[1].ts - t]
    /\ UNCHANGED <<pend, fr, open, base>>
ProcBegin(now) ==
    /\ Calling
    /\ fr' = <<[now |-> now, cnt |-> 0, cur |-> 0]>> \o fr
    /\ act' = [op |-> "process", now |-> now]
    /\ UNCHANGED <<pend, open, base>>
Due == IF pend = << >> THEN FALSE ELSE Head(pend).ts <= Head(fr).now
Fire(id, tag) ==
    /\ fr # << >> /\ Head(fr).cur = 0 /\ Due
    /\ id = Head(pend).id /\ tag = Head(pend).tag
    /\ pend' = Tail(pend)
    /\ fr' = [fr EXCEPT ![1].cur = id, ![1].cnt = @ + 1]
    /\ act' = [op |-> "fire", id |-> id, tag |-> tag]
    /\ UNCHANGED <<open, base>>
CbEnd ==
    /\ fr # << >> /\ Head(fr).cur # 0
    /\ fr' = [fr EXCEPT ![1].cur = 0]
    /\ act' = [op |-> "cb_end"]
    /\ UNCHANGED <<pend, open, base>>
ProcEnd ==
    /\ fr # << >> /\ Head(fr).cur = 0 /\ ~Due
    /\ fr' = Tail(fr)
    /\ act' = [op |-> "processed", count |-> Head(fr).cnt]
    /\ UNCHANGED <<pend, open, base>>
Free == /\ open /\ fr = << >> /\ open' = FALSE /\ pend' = << >> /\ act' = [op |-> "free", leaked |-> 0]
        /\ UNCHANGED <<fr, base>>

Sorted == \A i \in 1..(Len(pend) - 1) : pend[i].ts <= pend[i + 1].ts
Distinct == Cardinality(Ids) = Len(pend)
Apart == Running = {} \/ \A i \in 1..Len(pend) : pend[i].id \notin Running
=============================================================================
