------------------------------- MODULE MCLfsr -------------------------------
(* 1. The sequence from the initial value visits every nonzero register value. *)
(* 2. A follower fed by a generator, with a corrupted byte, is in step again   *)
(*    two good bytes after a corrupted one and has reported exactly two errors *)
(*    (the corrupted byte and the byte judged against it).                     *)
EXTENDS Lfsr, Json
CONSTANTS SEEDS, FLIPS
VARIABLES gen,    \* generator register
          i,      \* bytes sent
          hit     \* bytes since the corrupted one (-1: none yet)
MCInit == /\ \E s \in SEEDS : gen = s
          /\ i = 0 /\ hit = -1 /\ Init
Good == /\ i < 9 /\ gen' = NextN(gen, 8) /\ Follow(gen' \div 256) /\ i' = i + 1
        /\ hit' = IF hit < 0 THEN hit ELSE hit + 1
Bad(e) == /\ i < 5 /\ i > 1 /\ hit < 0 /\ gen' = NextN(gen, 8)
          /\ LET b == gen' \div 256 IN Follow((b + e) % 256)
          /\ i' = i + 1 /\ hit' = 0
MCNext == Good \/ \E e \in FLIPS : Bad(e)
MCSpec == MCInit /\ [][MCNext]_<<vars, gen, i, hit>>
InStep == /\ (hit < 0 /\ i >= 2) => (v = gen /\ need = 0 /\ errs = 0)
          /\ (hit >= 3) => (v = gen /\ need = 0 /\ errs = 2)
View == <<v, need, errs, gen, i, hit>>
\* full period
PInit == Init /\ gen = 0 /\ i = 0 /\ hit = 0
PNext == U1 /\ UNCHANGED <<gen, i, hit>>
PSpec == PInit /\ [][PNext]_<<vars, gen, i, hit>>
Nonzero == v # 0
Period == TLCGet("stats").distinct = 65535
PView == v
=============================================================================
