------------------------------- MODULE MCCstr -------------------------------
(* Every text over an alphabet up to a length, grown one character at a time. *)
EXTENDS Cstr, Json, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE s
MCInit == Init /\ s = << >>
MCNext == /\ Len(s) < MaxLen
          /\ \E ch \in Alphabet : s' = Append(s, ch) /\ act' = [op |-> "type", s |-> s']
          /\ UNCHANGED out
MCSpec == MCInit /\ [][MCNext]_<<vars, s>>
MCView == s
Same(a, b) == a.st = b.st /\ (a.st = "ok" => a.v = b.v)
Neg(r) == IF r.st = "ok" THEN [r EXCEPT !.v.neg = ~@ /\ r.v.m # <<0, 0>>] ELSE r
\* white space around a number does not matter
Blank == /\ Same(U32(<<32>> \o s \o <<9>>), U32(s))
         /\ Same(I32(<<10>> \o s \o <<32>>), I32(s))
         /\ Same(I32s(<<13>> \o s \o <<32, 32>>, 2), I32s(s, 2))
\* unsigned and signed texts agree, and a sign negates
Signs == /\ (U32(s).st = "ok" /\ U32(s).v.m[1] < 32768) => Same(I32(s), U32(s))
         /\ (s # << >> /\ ~Space(s[1]) /\ s[1] \notin {43, 45}) =>
               /\ Same(I32(<<43>> \o s), I32(s)) /\ Same(I32(<<45>> \o s), Neg(I32(s)))
               /\ Same(I32s(<<43>> \o s, 1), I32s(s, 1)) /\ Same(I32s(<<45>> \o s, 1), Neg(I32s(s, 1)))
\* with exponent 0, a text without a point is an integer
Whole == (\A i \in 1..Len(s) : s[i] \notin {46, 120, 88}) /\ I32(s).st # "any" => Same(I32s(s, 0), I32(s))
\* scaling moves the point: 10 * x with one digit more
Scale == (46 \in {s[i] : i \in 1..Len(s)} /\ Trim(s) = s) =>
             /\ (I32s(s, 1).st = "ok" => Same(I32s(s \o <<48>>, 1), I32s(s, 1)))
             /\ I32s(s, 0).st = I32s(s, 1).st
\* nothing that is not a number is taken for one
Strict == /\ U32(s).st = "ok" => \A i \in 1..Len(s) : Space(s[i]) \/ IsHex(s[i]) \/ s[i] = 120
          /\ I32s(s, 3).st = "ok" => \A i \in 1..Len(s) : Space(s[i]) \/ Digit(s[i]) \/ s[i] \in {43, 45, 46}
Emit == PrintT("T|" \o ToJson(s) \o "|" \o ToJson(act') \o "|" \o ToJson(s'))
=============================================================================
