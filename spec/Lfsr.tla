-------------------------------- MODULE Lfsr --------------------------------
(* The 16-bit Fibonacci LFSR x^16+x^14+x^13+x^11+1 (include/embc/lfsr.h):     *)
(* generator and follower.                                                    *)
EXTENDS Integers, Sequences, TLC
VARIABLES v,      \* register
          need,   \* follower: bytes still to be taken before it is in step
          errs,
          act
vars == <<v, need, errs, act>>
Bit(x, i) == (x \div 2^i) % 2
Fb(x) == (Bit(x, 0) + Bit(x, 2) + Bit(x, 3) + Bit(x, 5)) % 2
Guard(x) == IF x = 0 THEN 1 ELSE x                     \* the all-zero register is never left as it is
Next1(x) == LET y == Guard(x) IN y \div 2 + 32768 * Fb(y)
RECURSIVE NextN(_, _)
NextN(x, n) == IF n = 0 THEN x ELSE NextN(Next1(x), n - 1)
Init == v = 44257 /\ need = 2 /\ errs = 0 /\ act = [op |-> "init"]
Reset == v' = 44257 /\ need' = 2 /\ errs' = 0 /\ act' = [op |-> "reset"]
Seed(s) == v' = Guard(s) /\ act' = [op |-> "seed", s |-> s] /\ UNCHANGED <<need, errs>>
U1 == v' = Next1(v) /\ act' = [op |-> "u1", r |-> v' \div 32768] /\ UNCHANGED <<need, errs>>
U8 == v' = NextN(v, 8) /\ act' = [op |-> "u8", r |-> v' \div 256] /\ UNCHANGED <<need, errs>>
U16 == v' = NextN(v, 16) /\ act' = [op |-> "u16", r |-> v'] /\ UNCHANGED <<need, errs>>
U32 == v' = NextN(v, 32) /\ act' = [op |-> "u32", hi |-> NextN(v, 16), lo |-> v'] /\ UNCHANGED <<need, errs>>
\* one output of each width from register value x, and the 16 bits that follow it
Width(out) == CASE out = "u1" -> 1 [] out = "u8" -> 8 [] out = "u16" -> 16 [] OTHER -> 32
Outputs(out, x) == LET y == NextN(x, IF out = "u32" THEN 16 ELSE Width(out))
                       z == IF out = "u32" THEN NextN(y, 16) ELSE y
                   IN << IF out = "u32" THEN y ELSE 0,
                         CASE out = "u1" -> z \div 32768 [] out = "u8" -> z \div 256 [] OTHER -> z, NextN(z, 16) >>
Table(out, a, r) == /\ \A i \in DOMAIN r : r[i] = Outputs(out, Guard(a + i - 1))
                    /\ act' = [op |-> "table", out |-> out, a |-> a, r |-> r] /\ UNCHANGED <<v, need, errs>>
Follow(b) ==
    IF need > 0
    THEN /\ v' = v \div 256 + 256 * b /\ need' = need - 1 /\ UNCHANGED errs
         /\ act' = [op |-> "follow", b |-> b, rc |-> 0, errs |-> errs]
    ELSE LET w == NextN(v, 8) IN
         IF b = w \div 256
         THEN v' = w /\ UNCHANGED <<need, errs>> /\ act' = [op |-> "follow", b |-> b, rc |-> 0, errs |-> errs]
         ELSE /\ v' = 256 * b /\ need' = 1 /\ errs' = errs + 1
              /\ act' = [op |-> "follow", b |-> b, rc |-> -1, errs |-> errs + 1]
=============================================================================
