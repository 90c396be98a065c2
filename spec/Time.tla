-------------------------------- MODULE Time --------------------------------
(* 34Q30 fixed point time (include/embc/time.h) and its conversion to and     *)
(* from counters of any frequency.  The operators take the arithmetic as      *)
(* parameters of the module, so that the same definitions are checked on      *)
(* small integers and used on 64 bit values.                                  *)
CONSTANTS add(_, _), mul(_, _), less(_, _), neg(_), up(_), down(_), num(_)
zero == num(0)
one == num(1)
sub(a, b) == add(a, neg(b))
abs(a) == IF less(a, zero) THEN neg(a) ELSE a
\* up and down multiply and divide (rounding down) by one second
second == up(one)
\* --- to a counter of z ticks per second
Floor(x, z) == down(mul(x, z))
IsCeil(x, z, r) == \* the least r with r * second >= x * z
    LET p == mul(x, z) IN ~less(up(r), p) /\ less(up(sub(r, one)), p)
\* nearest, ties upwards: 2 r - 1 <= 2 x z / second < 2 r + 1
IsNear(x, z, r) == LET p == mul(num(2), mul(x, z)) IN ~less(p, up(sub(mul(num(2), r), one))) /\ less(p, up(add(mul(num(2), r), one)))
\* --- from a counter: rounded towards zero
IsFrom(c, z, r) == LET d == sub(up(c), mul(r, z)) IN
                   less(abs(d), abs(z)) /\ (d = zero \/ less(d, zero) = less(c, zero))
=============================================================================
