--------------------------------- MODULE Crc ---------------------------------
(* The three CRCs of include/embc/crc.h, bit by bit from their polynomials.     *)
(* A 32-bit value is a pair <<high 16 bits, low 16 bits>>.                      *)
(* Every CRC starts from the complement of the given value (0 for a new block)  *)
(* and returns the complement of the register, so that calls can be chained.    *)
EXTENDS Integers, Sequences, Bitwise
LOCAL INSTANCE SequencesExt
\* --- CRC-8, reflected polynomial 0xE0
R8(c) == IF c % 2 = 1 THEN (c \div 2) ^^ 224 ELSE c \div 2
T8 == [i \in 0..255 |-> R8(R8(R8(R8(R8(R8(R8(R8(i))))))))]
Step8(c, b) == T8[c ^^ b]
Crc8(c, s) == IF s = << >> THEN c ELSE 255 - FoldLeft(Step8, 255 - c, s)
\* --- CRC-16, polynomial 0x1021, most significant bit first
R16(c) == IF c >= 32768 THEN ((c - 32768) * 2) ^^ 4129 ELSE c * 2
T16 == [i \in 0..255 |-> R16(R16(R16(R16(R16(R16(R16(R16(i * 256))))))))]
Step16(c, b) == ((c % 256) * 256) ^^ T16[(c \div 256) ^^ b]
Crc16(c, s) == IF s = << >> THEN c ELSE 65535 - FoldLeft(Step16, 65535 - c, s)
\* --- CRC-32, reflected polynomial 0xEDB88320
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
R32(c) == LET s == <<c[1] \div 2, c[2] \div 2 + (c[1] % 2) * 32768>>
          IN IF c[2] % 2 = 1 THEN Xor32(s, <<60856, 33568>>) ELSE s
T32 == [i \in 0..255 |-> R32(R32(R32(R32(R32(R32(R32(R32(<<0, i>>))))))))]
Step32(c, b) == Xor32(<<c[1] \div 256, (c[1] % 256) * 256 + c[2] \div 256>>, T32[(c[2] % 256) ^^ b])
Crc32(c, s) == IF s = << >> THEN c
               ELSE LET r == FoldLeft(Step32, <<65535 - c[1], 65535 - c[2]>>, s) IN <<65535 - r[1], 65535 - r[2]>>
=============================================================================
