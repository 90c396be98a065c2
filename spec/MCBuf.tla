------------------------------- MODULE MCBuf --------------------------------
EXTENDS Buf, Json
CONSTANTS Caps
CONSTANT MaxCap
Strs == {<<>>, <<1>>, <<1, 2>>} \cup (IF MaxCap > 2 THEN {<<2, 1, 3>>} ELSE {}) \cup {[i \in 1..(MaxCap + 1) |-> 1 + (i % 2)]}
Next ==
    \/ b[1].cap = 0 /\ \E x, y \in Caps : Reset(x, y)
    \/ b[1].cap > 0 /\ \E k \in {1} :
        \/ \E d \in Strs : Write(k, d)
        \/ \E d \in Strs, t \in BOOLEAN : WriteStr(k, d, t)
        \/ \E be \in BOOLEAN, v \in {<<2>>, <<1, 2>>} : WriteInt(k, be, v)
        \/ \E n \in 0..MaxCap : Read(k, n, << >>)
        \/ \E be \in BOOLEAN, w \in {1, 2} : ReadInt(k, be, w)
        \/ \E i \in {0, 1, MaxCap, MaxCap + 1} : Seek(k, i)
        \/ \E i, j \in 0..MaxCap : Erase(k, i, j)
        \/ \E c \in BOOLEAN : Rewind(k, c)
        \/ Reinit(k)
        \/ \E r \in 0..(MaxCap - 1) : Reserve(k, r)
    \/ b[1].cap > 0 /\ \E k \in 1..2, n \in {0, 1, 2} : Copy(k, n)
    \/ b[1].cap > 0 /\ (\/ Len(b[2].c) < 2 /\ Write(2, <<2>>)
                        \/ Seek(2, 0))
Spec == Init /\ [][Next]_vars
Abs == b
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* a fatal call changes nothing; only string writes may have written a prefix
FatalIsNoOp == [][(act'.op \in {"write", "wint", "read", "rint", "copy", "seek", "erase"} /\ act'.fatal) => b' = b]_vars
\* the reserved tail is never written: contents never grow into it
ReserveKept == [][\A k \in 1..2 : (act'.op # "reset" /\ Len(b'[k].c) > Len(b[k].c)) => Len(b'[k].c) <= b[k].cap - b[k].res]_vars
=============================================================================
