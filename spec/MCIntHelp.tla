----------------------------- MODULE MCIntHelp -----------------------------
EXTENDS IntHelp
CONSTANTS MaxX, MaxM
VARIABLES x, m
Init == x = -MaxX /\ m = 1
Next == IF x < MaxX THEN x' = x + 1 /\ m' = m ELSE m < MaxM /\ m' = m + 1 /\ x' = -MaxX
Spec == Init /\ [][Next]_<<x, m>>
Multiple == LET r == RoundUp(x, m) IN
    /\ Abs(r) % m = 0 /\ Abs(r) >= Abs(x) /\ Abs(r) < Abs(x) + m /\ (r # 0 => Signum(r) = Signum(x))
    /\ RoundUp(-x, m) = -r /\ RoundUp(r, m) = r
Limits == \A b \in m..(m + 3) : LET r == Restrict(x, m, b) IN r \in m..b /\ (x \in m..b => r = x) /\ (x > b => r = b) /\ (x < m => r = m)
\* on both halves: x (if not negative) as low half under every power in the high half
W(h) == <<h, x>>
Leading == x >= 0 => \A h \in {0} \cup {2^k : k \in 0..15} :
    LET c == Clz(W(h)) IN
    /\ c \in 0..32 /\ (c = 32) = (W(h) = <<0, 0>>)
    /\ c < 32 => LET t == Word(31 - c) IN   \* the bit c from the top is set and none above
           IF c < 16 THEN (h \div t[1]) = 1 ELSE h = 0 /\ (x \div t[2]) = 1
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
PowerUp == x >= 0 => \A h \in {0} \cup {2^k : k \in 0..15} : UpperDefined(W(h)) =>
    LET u == Upper(W(h)) IN IsPower(u) /\ Le(W(h), u) /\ \A n \in 0..31 : Le(W(h), Word(n)) => Le(u, Word(n))
=============================================================================
