----------------------------- MODULE MCPattern -----------------------------
(* A stream of pattern segments: at each step the source goes on, jumps       *)
(* forwards or backwards, or a corrupted word arrives.  The ghost variables   *)
(* record what really happened to the stream.                                 *)
EXTENDS Pattern, Json
CONSTANTS JUMPS, BREAKS, WORDS, STARTS, GARBAGE
VARIABLES src,    \* index of the next word of the stream
          run,    \* number of words since the last break
          lost, again, breaks, junk
g == <<src, run, lost, again, breaks, junk>>
MCInit == Init /\ src = 0 /\ run = 0 /\ lost = 0 /\ again = 0 /\ breaks = 0 /\ junk = 0
MCReset(s) == Reset /\ act.op = "init" /\ src' = s /\ run' = 0 /\ UNCHANGED <<lost, again, breaks, junk>>
Go == /\ act.op # "init" /\ rx.rcv < WORDS
      /\ Rx(Word(src), 0, 0) /\ src' = (src + 1) % PERIOD /\ run' = run + 1 /\ UNCHANGED <<lost, again, breaks, junk>>
Jump(d) == /\ act.op # "init" /\ rx.rcv < WORDS /\ breaks < BREAKS /\ run > 3
           /\ Rx(Word(src + d), 0, 0)
           /\ src' = (src + d + 1) % PERIOD /\ run' = 1 /\ breaks' = breaks + 1
           /\ lost' = IF d <= PERIOD \div 2 THEN lost + d ELSE lost
           /\ again' = IF d > PERIOD \div 2 THEN again + PERIOD - d ELSE again
           /\ UNCHANGED junk
\* a corrupted word instead of the next word of the stream
Corrupt == /\ GARBAGE /\ act.op # "init" /\ rx.rcv < WORDS /\ breaks < BREAKS /\ run > 3
           /\ Rx([k |-> "x", v |-> 1], 0, 0) /\ src' = (src + 1) % PERIOD /\ run' = 0 /\ junk' = junk + 1
           /\ lost' = lost + 1 /\ breaks' = breaks + 1 /\ UNCHANGED again
MCNext == (\E s \in STARTS : MCReset(s)) \/ Go \/ (\E d \in JUMPS : Jump(d)) \/ Corrupt
MCSpec == MCInit /\ [][MCNext]_<<vars, g>>
\* three words after a break everything has been accounted for, exactly
Accounted == (run >= 3 /\ ~rx.free) =>
    /\ rx.st = "sync" /\ rx.nxt = src
    /\ rx.missing = lost /\ rx.dup = again
    /\ rx.resync = breaks /\ rx.err = breaks + junk
Emit == PrintT("T|" \o ToJson(<<src, run, lost, again, breaks, junk, rx>>) \o "|" \o ToJson(act') \o "|" \o ToJson(<<src', run', lost', again', breaks', junk', rx'>>))
View == <<g, rx, act.op = "init">>
=============================================================================
