----------------------------- MODULE MCLogCheck -----------------------------
EXTENDS LogCheck, Json
CONSTANTS P, LINES
VARIABLES h     \* the lines read
mv == <<vars, h>>
MCInit == Init /\ h = << >>
MCNext == n < LINES /\ ((\E p \in P : Alloc(p) \/ Free(p)) \/ Other) /\ h' = Append(h, act')
MCSpec == MCInit /\ [][MCNext]_mv
Lines(op, p) == {i \in DOMAIN h : h[i].op = op /\ (h[i].op = "other" \/ h[i].p = p)}
Before(S, i) == {j \in S : j < i}
\* an allocation is in order if the address was released after the last one, a release if there was an allocation since the last
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
AOk(p, i) == Max(Before(Lines("alloc", p), i)) <= Max(Before(Lines("free", p), i))
FOk(p, i) == Max(Before(Lines("alloc", p), i)) > Max(Before(Lines("free", p), i))
\* exactly the lines that are not in order are reported, each once, in order
Exact == /\ {out[i].line : i \in DOMAIN out} = UNION {{i \in Lines("alloc", p) : ~AOk(p, i)} \cup {i \in Lines("free", p) : ~FOk(p, i)} : p \in P}
         /\ \A i \in 1..Len(out) - 1 : out[i].line < out[i + 1].line
\* what is left are the addresses whose last line is an allocation
LeftOk == {r.p : r \in Left} = {p \in P : Max(Lines("alloc", p)) > Max(Lines("free", p))}
Places == \A i \in DOMAIN out : LET r == out[i] IN r.p # 0 => r.a = Max(Before(Lines("alloc", r.p), r.line))
\* a log in which everything is paired is silent
Silent == (\A p \in P : \A i \in DOMAIN h : (i \in Lines("alloc", p) => AOk(p, i)) /\ (i \in Lines("free", p) => FOk(p, i))) => out = << >>
Emit == PrintT("T|" \o ToJson(h) \o "|" \o ToJson(act') \o "|" \o ToJson(h'))
=============================================================================
