------------------------------- MODULE MCCli --------------------------------
EXTENDS Cli, Json
CONSTANTS Alphabet, Fills, Near
Modes == {<<"line", 0>>, <<"line", 1>>, <<"args", 2>>}
\* runs of characters that bring a line near the limit
Fill(k) == CASE k = 1 -> [i \in 1..61 |-> 97]
             [] k = 2 -> [i \in 1..61 |-> SP]
             [] k = 3 -> [i \in 1..61 |-> IF i % 4 = 0 THEN TAB ELSE 98]
             [] k = 4 -> [i \in 1..31 |-> IF i % 2 = 0 THEN SP ELSE 99]
Next ==
    \/ cfg.mode = "" /\ \E ms \in Modes : Configure(ms[1], <<62>>, ms[2], 42, ms[2] = 1, TRUE)
    \/ \E c \in Alphabet : Feed(<<c>>)
    \/ n = 0 /\ \E k \in Fills : Feed(Fill(k))
    \/ \E c \in {BS, DEL} : Rub(c)
    \/ \E c \in {CR, LF}, rc \in {-1, 0, 1} : EndLine(c, rc)
Spec == Init /\ [][Next]_vars
Bound == n <= 2 \/ (n \in 30..33 /\ raw[2] # raw[3]) \/ n \in Near
Abs == <<cfg, raw, n, cr>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* what runs is the whole line: nothing after the limit was dropped
Whole == [][(act'.op = "eol" /\ act'.runs = 1) => (n <= LEN \/ HasComment(raw))]_vars
=============================================================================
