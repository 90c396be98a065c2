-------------------------------- MODULE Cstr --------------------------------
(* C string utilities (include/embc/cstr.h).  Strings are sequences of        *)
(* character codes 1..255.  32-bit magnitudes are pairs <<high, low>>.        *)
(* Texts whose meaning the interface leaves open ("any"): numbers out of      *)
(* range, "0X", and white space between a sign and its number.                *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
VARIABLES out,   \* the caller's variables, which an error leaves alone: [u32, i32, index, bool]
          act
vars == <<out, act>>
NoNum == [neg |-> FALSE, m |-> <<0, 0>>]
Init == out = [u32 |-> NoNum, i32 |-> NoNum, index |-> 0, bool |-> FALSE] /\ act = [op |-> "init"]

Space(ch) == ch = 32 \/ ch \in 9..13
Digit(ch) == ch \in 48..57
Lower(ch) == ch \in 97..122
Up(ch) == IF Lower(ch) THEN ch - 32 ELSE ch
Upper(s) == [i \in 1..Len(s) |-> Up(s[i])]
Hex(ch) == CASE Digit(ch) -> ch - 48 [] ch \in 97..102 -> ch - 87 [] ch \in 65..70 -> ch - 55 [] OTHER -> 16
HexOr0(ch) == IF Hex(ch) = 16 THEN 0 ELSE Hex(ch)
ToHex(v) == IF v < 10 THEN 48 + v ELSE IF v < 16 THEN 55 + v ELSE 48
TrimL(s) == LET p == {i \in 1..Len(s) : ~Space(s[i])} IN IF p = {} THEN << >> ELSE SubSeq(s, CHOOSE i \in p : \A j \in p : i <= j, Len(s))
TrimR(s) == LET p == {i \in 1..Len(s) : ~Space(s[i])} IN IF p = {} THEN << >> ELSE SubSeq(s, 1, CHOOSE i \in p : \A j \in p : i >= j)
Trim(s) == TrimR(TrimL(s))
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

\* --- magnitudes, with a sticky overflow mark
BIG == <<-1, -1>>
MulAdd(b, v, d) == IF v = BIG THEN BIG
                   ELSE LET lo == v[2] * b + d
                            hi == v[1] * b + lo \div 65536
                        IN IF hi > 65535 THEN BIG ELSE <<hi, lo % 65536>>
Number(b, ds) == FoldLeft(LAMBDA v, d : MulAdd(b, v, d), <<0, 0>>, ds)
IsDigit(ch) == Digit(ch)
IsHex(ch) == Hex(ch) < 16
Vals(s) == [i \in 1..Len(s) |-> HexOr0(s[i])]
Err == [st |-> "err", v |-> NoNum]
Open == [st |-> "any", v |-> NoNum]
Good(neg, m) == [st |-> "ok", v |-> [neg |-> neg /\ m # <<0, 0>>, m |-> m]]
\* an unsigned number, without white space
Unsigned(t) ==
    IF t = << >> THEN Err
    ELSE IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] = 88 THEN Open
    ELSE IF (IF Len(t) >= 2 THEN t[1] = 48 /\ t[2] = 120 ELSE FALSE)
    THEN LET h == SubSeq(t, 3, Len(t)) IN
         IF h = << >> \/ ~All(h, IsHex) THEN Err
         ELSE LET m == Number(16, Vals(h)) IN IF m = BIG THEN Open ELSE Good(FALSE, m)
    ELSE IF ~All(t, IsDigit) THEN Err
    ELSE LET m == Number(10, Vals(t)) IN IF m = BIG THEN Open ELSE Good(FALSE, m)
Sign(t) == IF t = << >> THEN [neg |-> FALSE, rest |-> t]
           ELSE IF Head(t) = 45 THEN [neg |-> TRUE, rest |-> Tail(t)]
           ELSE IF Head(t) = 43 THEN [neg |-> FALSE, rest |-> Tail(t)]
           ELSE [neg |-> FALSE, rest |-> t]
\* the magnitude m fits a signed number
Signed(neg, m) == IF m = BIG THEN Open
                  ELSE IF m[1] < 32768 \/ (neg /\ m = <<32768, 0>>) THEN Good(neg, m) ELSE Open
U32(s) == Unsigned(Trim(s))
I32(s) == LET g == Sign(Trim(s)) IN
          IF g.rest = << >> THEN Err
          ELSE IF Space(g.rest[1]) THEN Open
          ELSE LET u == Unsigned(g.rest) IN IF u.st # "ok" THEN u ELSE Signed(g.neg, u.v.m)
\* digits, at most one point; scaled by 10^x and truncated
I32s(s, x) ==
    LET g == Sign(Trim(s))
        pts == {i \in 1..Len(g.rest) : g.rest[i] = 46}
    IN IF x < 0 THEN Err
       ELSE LET p == IF pts = {} THEN Len(g.rest) + 1 ELSE CHOOSE i \in pts : \A j \in pts : i <= j
                a == SubSeq(g.rest, 1, p - 1)
                f == SubSeq(g.rest, p + 1, Len(g.rest))
                k == IF Len(f) < x THEN Len(f) ELSE x
                ds == Vals(a \o SubSeq(f, 1, k)) \o [i \in 1..(x - k) |-> 0]
            IN IF ~All(a, IsDigit) \/ ~All(f, IsDigit) \/ a \o f = << >> THEN Err
               ELSE Signed(g.neg, Number(10, ds))

\* a conversion into the variable k: what the code did is (ok, v)
Into(k, r, ok, v) == /\ r.st = "ok" => ok /\ v = r.v
                     /\ r.st = "err" => ~ok
                     /\ ~ok => v = out[k]
                     /\ out' = [out EXCEPT ![k] = v]
ToU32(s, ok, v) == Into("u32", U32(s), ok, v)
ToI32(s, ok, v) == Into("i32", I32(s), ok, v)
ToI32s(s, x, ok, v) == Into("i32", I32s(s, x), ok, v)
\* position of s in a table, the first if there are several
Index(s, t, ok, v) ==
    LET p == {i \in 1..Len(t) : t[i] = s} IN
    /\ ok = (p # {})
    /\ v = IF p = {} THEN out.index ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1
    /\ out' = [out EXCEPT !.index = v]
   
Words(b) == IF b THEN {<<79, 78>>, <<49>>, <<69, 78, 65, 66, 76, 69>>, <<84, 82, 85, 69>>}
            ELSE {<<79, 70, 70>>, <<48>>, <<68, 73, 83, 65, 66, 76, 69>>, <<70, 65, 76, 83, 69>>}
Bool(s, ok, v) ==
    LET u == Upper(s) IN
    /\ ok = (u \in Words(TRUE) \cup Words(FALSE))
    /\ v = IF ok THEN u \in Words(TRUE) ELSE out.bool
    /\ out' = [out EXCEPT !.bool = v]
   
\* --- functions without a variable
\* null: a null source; got: the target up to its end, or << >>; over: bytes beyond the target changed
Copy(s, null, n, rc, got) ==
    /\ rc = IF n <= 0 THEN -1 ELSE IF null \/ Len(s) < n THEN 0 ELSE 1
    /\ got = IF n <= 0 \/ null THEN << >> ELSE IF Len(s) < n THEN s ELSE SubSeq(s, 1, n - 1)
    /\ UNCHANGED out
   
\* -1, 0, 1 as the first difference of the upper case strings says; a prefix is smaller
Order(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                   d == {i \in 1..n : a[i] # b[i]}
               IN IF d # {} THEN LET i == CHOOSE i \in d : \A j \in d : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
                  ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
\* characters beyond 127 compare either as positive or as negative numbers, never as equal to another character
AsChar(s) == [i \in 1..Len(s) |-> IF s[i] > 127 THEN s[i] - 256 ELSE s[i]]
Case(a, b, r) == /\ r \in {Order(Upper(a), Upper(b)), Order(AsChar(Upper(a)), AsChar(Upper(b)))} /\ UNCHANGED out
\* offset behind the prefix, or -1
Prefix(s, p, r) == /\ r = (IF Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p THEN Len(p) ELSE -1)
                   /\ UNCHANGED out
ToUpper(s, r) == r = Upper(s) /\ UNCHANGED out
Nibbles(h, x) == /\ h = [i \in 1..256 |-> HexOr0(i - 1)] /\ x = [i \in 1..256 |-> ToHex(i - 1)]
                 /\ UNCHANGED out
=============================================================================
