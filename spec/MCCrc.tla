------------------------------- MODULE MCCrc --------------------------------
(* Exhaustive over short streams: the value does not depend on how the stream *)
(* is divided, and damage within the guaranteed limits always changes it.     *)
EXTENDS CrcStream, Json, TLC
CONSTANTS Bytes, MaxLen
LOCAL INSTANCE SequencesExt
VARIABLE hist     \* the stream so far
MCInit == Init /\ hist = << >>
Pieces == {<<x>> : x \in Bytes} \cup {<<x, y>> : x \in Bytes, y \in Bytes} \cup {<< >>}
MCPut(s) == /\ Len(hist) + Len(s) <= MaxLen
            /\ hist' = hist \o s
            /\ c' = [k8 |-> Of("k8", c.k8, s), k16 |-> Of("k16", c.k16, s), k32 |-> Of("k32", c.k32, s)]
            /\ act' = [op |-> "all", s |-> s]
MCNext == \E s \in Pieces : MCPut(s)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Chained == hist # << >> => \A k \in {"k8", "k16", "k32"} : c[k] = Of(k, Zero[k], hist)
\* --- damage: the stream with the bits of e (a sequence of 0/1, first bit first sent) inverted
XorSeq(s, e) == [i \in 1..Len(s) |-> s[i] ^^ e[i]]
\* bytes of a burst: the low bits of v (at most 16) placed p bits into n bytes; bit order as the CRC shifts
BurstM(n, p, v) == [i \in 1..n |-> LET sh == 8 * (n - i) - p IN IF sh >= 0 THEN (v \div 2^sh) % 256 ELSE IF sh > -16 THEN (v * 2^(-sh)) % 256 ELSE 0]
BurstL(n, p, v) == [i \in 1..n |-> LET sh == 8 * (i - 1) - p IN IF sh >= 0 THEN (v \div 2^sh) % 256 ELSE IF sh > -16 THEN (v * 2^(-sh)) % 256 ELSE 0]
\* shifts of v that stay in range (v < 2^16, shift < 15)
Bursts(w) == {v \in 1..(2^w - 1) : v % 2 = 1}
DetectBurst == (Len(hist) \in {2, 3}) =>
    LET n == Len(hist) IN
    \A p \in 0..(8 * n - 8) : \A v \in Bursts(8) :
          /\ Of("k8", 0, XorSeq(hist, BurstL(n, p, v))) # c.k8
          /\ p > 8 * n - 9 \/ Of("k16", 0, XorSeq(hist, BurstM(n, p, v))) # c.k16
\* full width bursts, on one stream (the codes are linear: Linear)
DetectWide == (hist = <<0, 0, 0>>) =>
    \A p \in 0..8 : \A v \in Bursts(16) :
        /\ Of("k16", 0, XorSeq(hist, BurstM(3, p, v))) # c.k16
        /\ v % 16 # 1 \/ Of("k32", <<0, 0>>, XorSeq(hist, BurstL(3, p, v))) # c.k32
Linear == (Len(hist) = 2) => \A x \in Bytes, y \in Bytes :
    LET e == <<x, y>>  z == <<0, 0>> IN
    /\ (Of("k8", 0, XorSeq(hist, e)) ^^ c.k8) = (Of("k8", 0, e) ^^ Of("k8", 0, z))
    /\ (Of("k16", 0, XorSeq(hist, e)) ^^ c.k16) = (Of("k16", 0, e) ^^ Of("k16", 0, z))
    /\ Xor32(Of("k32", z, XorSeq(hist, e)), c.k32) = Xor32(Of("k32", z, e), Of("k32", z, z))
\* any two inverted bits
Flip(s, b) == [s EXCEPT ![1 + b \div 8] = @ ^^ (2^(b % 8))]
DetectTwo == (Len(hist) = MaxLen) =>
    \A a \in 0..(8 * MaxLen - 1) : \A b \in 0..(8 * MaxLen - 1) : a < b =>
        LET d == Flip(Flip(hist, a), b) IN \A k \in {"k8", "k16", "k32"} : Of(k, Zero[k], d) # c[k]
Emit == PrintT("T|" \o ToJson(<<hist>>) \o "|" \o ToJson(act') \o "|" \o ToJson(<<hist'>>))
MCView == <<c, hist>>
\* published check values of "123456789"
Nine == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
ASSUME Crc16(0, Nine) = 65535 - 10673          \* ~0x29B1
ASSUME Crc32(<<0, 0>>, Nine) = <<52212, 14630>> \* 0xCBF43926
=============================================================================
