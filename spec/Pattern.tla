------------------------------ MODULE Pattern ------------------------------
(* The 32-bit test pattern (include/embc/pattern_32a.h): a transmitter that   *)
(* interleaves a walking bit with a counter, and a receiver that follows it,  *)
(* counting errors, missing words and duplicated words.                       *)
(* A word is [k |-> "s", v] (the v-th walking-bit value), [k |-> "c", v] (a   *)
(* counter value) or [k |-> "x", v] (anything that is not a pattern word).    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS SHIFTS,    \* 33
          COUNTS     \* 65536
VARIABLES pos,   \* transmitter: index of its next word, modulo the period
          rx,    \* receiver
          act
vars == <<pos, rx, act>>
PERIOD == 2 * SHIFTS * COUNTS
Word(p) == LET j == (p % PERIOD) \div 2
           IN IF p % 2 = 0 THEN [k |-> "s", v |-> j % SHIFTS] ELSE [k |-> "c", v |-> j % COUNTS]
\* the index of the pair of words whose walking-bit value is s and whose counter is c
PairOf(s, c) == LET t == CHOOSE t \in 0..(SHIFTS - 1) : (c + COUNTS * t) % SHIFTS = s IN c + COUNTS * t
\* two words that follow each other somewhere in the pattern, and where
IsPair(a, b) == (a.k = "s" /\ b.k = "c") \/ (a.k = "c" /\ b.k = "s")
PosOf(a, b) == IF a.k = "s" THEN 2 * PairOf(a.v, b.v)
               ELSE 2 * PairOf((b.v + SHIFTS - 1) % SHIFTS, a.v) + 1

Fresh == [st |-> "unsync", nxt |-> 0, w |-> [k |-> "x", v |-> 0],
          rcv |-> 0, err |-> 0, resync |-> 0, missing |-> 0, dup |-> 0, free |-> FALSE]
\* free: the receiver has not been in step yet and may count anything as missing or
\* duplicated when it first gets in step
Insync(r, a, b) == LET p == PosOf(a, b) IN [r EXCEPT !.st = "sync", !.nxt = (p + 2) % PERIOD]
Gap(r, a, b) == LET d == (PosOf(a, b) - r.nxt + PERIOD) % PERIOD
                IN IF d > PERIOD \div 2 THEN [r EXCEPT !.dup = @ + PERIOD - d] ELSE [r EXCEPT !.missing = @ + d]
Feed1(r, w) ==
    CASE r.st = "unsync" -> [r EXCEPT !.w = w, !.st = "second"]
      [] r.st = "second" -> IF IsPair(r.w, w) THEN Insync(r, r.w, w)
                            ELSE [r EXCEPT !.err = @ + 1, !.w = w, !.st = "seek", !.free = TRUE]
      [] r.st = "seek" -> IF IsPair(r.w, w) THEN Insync(IF r.free THEN r ELSE Gap(r, r.w, w), r.w, w)
                          ELSE [r EXCEPT !.err = @ + 1, !.w = w]
      [] r.st = "sync" -> IF w = Word(r.nxt) THEN [r EXCEPT !.nxt = (@ + 1) % PERIOD]
                          ELSE [r EXCEPT !.err = @ + 1, !.resync = @ + 1, !.w = w, !.st = "seek", !.free = FALSE]
Feed(r, w) == [Feed1(r, w) EXCEPT !.rcv = @ + 1]
RECURSIVE FeedSeg(_, _, _)
FeedSeg(r, p, n) ==    \* n pattern words from index p
    IF n = 0 THEN r
    ELSE IF r.st = "sync" /\ r.nxt = p % PERIOD THEN [r EXCEPT !.nxt = (p + n) % PERIOD, !.rcv = @ + n]
    ELSE FeedSeg(Feed(r, Word(p)), p + 1, n - 1)

Init == pos = 0 /\ rx = Fresh /\ act = [op |-> "init"]
Reset == pos' = 0 /\ rx' = Fresh /\ act' = [op |-> "reset"]
Tx(n) == /\ pos' = (pos + n) % PERIOD
         /\ act' = [op |-> "tx", words |-> [i \in 1..n |-> Word(pos + i - 1)]]
         /\ UNCHANGED rx
TxSkip(n) == pos' = (pos + n) % PERIOD /\ act' = [op |-> "txskip", n |-> n] /\ UNCHANGED rx
Obs(r) == [rcv |-> r.rcv, err |-> r.err, resync |-> r.resync, missing |-> r.missing, dup |-> r.dup]
\* Leaving "seek" for the first time (free): the counts of missing and duplicated words are not specified
Settle(r0, r, m, d) == IF r0.st # "sync" /\ r.st = "sync" /\ r0.free THEN [r EXCEPT !.missing = m, !.dup = d, !.free = FALSE] ELSE r
Rx(w, m, d) == /\ rx' = Settle(rx, Feed(rx, w), m, d)
               /\ act' = [op |-> "rx", w |-> w] @@ Obs(rx')
               /\ UNCHANGED pos
RxSeg(p, n) == /\ ~rx.free \/ rx.st = "sync"
               /\ rx' = FeedSeg(rx, p, n)
               /\ act' = [op |-> "rxseg", p |-> p, n |-> n] @@ Obs(rx')
               /\ UNCHANGED pos
=============================================================================
