------------------------------ MODULE LogCheck ------------------------------
(* The log checker (py/bin/buffer_log_check.py): it reads the log of a program *)
(* that uses the buffers and reports every allocation and release that has no  *)
(* partner.  A line of the log tells of one allocation, one release, or        *)
(* something else.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES n,        \* lines read
          live,     \* address -> line of its allocation, for those not released since
          past,     \* address -> <<line of the last allocation, line of its release or 0>>
          out,      \* reports so far: [kind, line, p, a, f]
          act
vars == <<n, live, past, out, act>>
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Init == n = 0 /\ live = Empty /\ past = Empty /\ out = << >> /\ act = [op |-> "reset"]
Say(kind, p, a, f) == out' = Append(out, [kind |-> kind, line |-> n + 1, p |-> p, a |-> a, f |-> f])
Alloc(p) == /\ n' = n + 1
            /\ IF p \in DOMAIN live THEN Say("alloc", p, live[p], 0) ELSE UNCHANGED out
            /\ live' = Put(live, p, n + 1) /\ past' = Put(past, p, <<n + 1, 0>>)
            /\ act' = [op |-> "alloc", p |-> p]
Free(p) == /\ n' = n + 1
           /\ IF p \in DOMAIN live THEN /\ live' = Drop(live, p) /\ past' = [past EXCEPT ![p][2] = n + 1] /\ UNCHANGED out
              ELSE /\ UNCHANGED <<live, past>>
                   /\ IF p \in DOMAIN past THEN Say("free", p, past[p][1], past[p][2]) ELSE Say("free", 0, 0, 0)
           /\ act' = [op |-> "free", p |-> p]
\* any other line, also that of an allocation that failed
Other == n' = n + 1 /\ UNCHANGED <<live, past, out>> /\ act' = [op |-> "other"]
\* what is still allocated when the log ends
Left == {[kind |-> "left", line |-> 0, p |-> p, a |-> live[p], f |-> 0] : p \in DOMAIN live}
=============================================================================
