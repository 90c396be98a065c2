----------------------------- MODULE PingQueue ------------------------------
(* The queue of pings of the qualification tool (py/bin/framer_qual.py): it    *)
(* keeps DEPTH pings under way and accounts for every one of them.  A response *)
(* carries the message id and the payload (here: the number k) of its ping;    *)
(* the link confirms that a ping has arrived (done), or gives it up.  Either   *)
(* may come first, and responses may be lost.                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS DEPTH,     \* 3
          TIMEOUT,   \* 5 s
          DELAY,     \* 1 s without new pings after one was given up
          IDS        \* 256
VARIABLES total,     \* number of pings to send, -1: no limit
          gen,       \* pings generated
          q,         \* pings under way: [k, age, rsp, done]
          n,         \* <<completed, given up, missing, timed out>>
          delay,
          sent,      \* pings sent by the last operation: <<id, k>>
          act
vars == <<total, gen, q, n, delay, sent, act>>
Id(k) == k % IDS
Min(a, b) == IF a < b THEN a ELSE b
\* a state of the queue as a record
Now == [total |-> total, gen |-> gen, q |-> q, n |-> n, delay |-> delay, sent |-> << >>]
Become(s) == gen' = s.gen /\ q' = s.q /\ n' = s.n /\ delay' = s.delay /\ sent' = s.sent /\ UNCHANGED total
Count(s, P(_)) == Len(SelectSeq(s, P))
Finished(m) == m.rsp /\ m.done
Late(m) == m.age >= TIMEOUT
Waits(m) == ~m.rsp
Open(m) == ~m.done
\* frames whose ping is over leave the queue, new ones take their places
Process(s) ==
    LET q1 == SelectSeq(s.q, LAMBDA m : ~Finished(m) /\ ~Late(m))
        n1 == [s.n EXCEPT ![1] = @ + Count(s.q, Finished),
                          ![4] = @ + Count(s.q, LAMBDA m : Late(m) /\ ~Finished(m))]
        room == DEPTH - (IF Count(q1, Waits) > Count(q1, Open) THEN Count(q1, Waits) ELSE Count(q1, Open))
        left == IF s.total < 0 THEN room ELSE Min(room, s.total - s.gen)
        new == IF s.delay > 0 \/ left < 0 THEN 0 ELSE left
    IN [s EXCEPT !.q = q1 \o [i \in 1..new |-> [k |-> s.gen + i - 1, age |-> 0, rsp |-> FALSE, done |-> FALSE]],
                 !.n = n1, !.gen = @ + new,
                 !.sent = @ \o [i \in 1..new |-> <<Id(s.gen + i - 1), s.gen + i - 1>>]]
\* a response belongs to the ping with its id and payload; the pings before it that
\* still wait for theirs will not get it any more
Find(s, P(_)) == LET S == {i \in DOMAIN s : P(s[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Rx(s, id, k) ==
    LET i == Find(s.q, LAMBDA m : Waits(m) /\ Id(m.k) = id /\ m.k = k)
        before == SubSeq(s.q, 1, i - 1)
    IN IF i = 0 THEN s
       ELSE Process([s EXCEPT !.q = SelectSeq(before, LAMBDA m : ~Waits(m)) \o <<[@[i] EXCEPT !.rsp = TRUE]>> \o SubSeq(@, i + 1, Len(@)),
                              !.n[3] = @ + Count(before, Waits)])
Done(s, id, status) ==
    LET i == Find(s.q, LAMBDA m : Open(m) /\ Id(m.k) = id)
    IN IF i = 0 THEN s
       ELSE Process(IF status = 0 THEN [s EXCEPT !.q[i].done = TRUE]
                    ELSE [s EXCEPT !.q = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.n[2] = @ + 1, !.delay = DELAY])
Less(x, d) == IF x > d THEN x - d ELSE 0
Tick(s, d) == [s EXCEPT !.q = [i \in DOMAIN @ |-> [@[i] EXCEPT !.age = Min(TIMEOUT, @ + d)]], !.delay = Less(@, d)]

Fresh(c) == [total |-> c, gen |-> 0, q |-> << >>, n |-> <<0, 0, 0, 0>>, delay |-> 0, sent |-> << >>]
Start(c) ==
    LET s == Process(Fresh(c)) IN
    /\ total' = c /\ act' = [op |-> "reset", count |-> c]
    /\ gen' = s.gen /\ n' = s.n /\ delay' = s.delay /\ q' = s.q /\ sent' = s.sent
Poll == Become(Process(Now)) /\ act' = [op |-> "process"]
Response(id, k) == Become(Rx(Now, id, k)) /\ act' = [op |-> "rx", id |-> id, k |-> k]
Report(id, status) == Become(Done(Now, id, status)) /\ act' = [op |-> "done", id |-> id, status |-> status]
Wait(d) == Become(Tick(Now, d)) /\ act' = [op |-> "adv", d |-> d]

\* every ping is accounted for exactly once
Account == gen = n[1] + n[2] + n[3] + n[4] + Len(q)
Depth == Count(q, Waits) <= DEPTH /\ Count(q, Open) <= DEPTH
Ordered == \A i, j \in DOMAIN q : i < j => q[i].k < q[j].k
Bounded == total >= 0 => gen <= total
=============================================================================
