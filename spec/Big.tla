-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: sequences of 16-bit limbs, least significant
   first, without zero limbs at the end.                                     *)
EXTENDS Integers, Sequences

RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(a, m, c, i) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET x == a[i] * m + c IN <<x % 65536>> \o MulAddFrom(a, m, x \div 65536, i + 1)
\* a*m + c for 0 < m <= 2^15, c < 2^15
MulAdd(a, m, c) == MulAddFrom(a, m, c, 1)

RECURSIVE OfNat(_)
OfNat(x) == IF x = 0 THEN <<>> ELSE <<x % 65536>> \o OfNat(x \div 65536)

ShiftL(a, k) == IF a = <<>> THEN a
                ELSE [i \in 1..(k \div 16) |-> 0] \o MulAdd(a, 2 ^ (k % 16), 0)

RECURSIVE MulPow10(_, _)
MulPow10(a, e) == IF e = 0 THEN a
                  ELSE IF e >= 4 THEN MulPow10(MulAdd(a, 10000, 0), e - 4)
                  ELSE MulPow10(MulAdd(a, 10, 0), e - 1)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                    ELSE CmpFrom(a, b, i - 1)
\* -1, 0 or 1
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

RECURSIVE DecFrom(_, _)
DecFrom(a, i) == IF a[i] = 0 THEN <<65535>> \o DecFrom(a, i + 1)
                 ELSE <<a[i] - 1>> \o SubSeq(a, i + 1, Len(a))
RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
\* a - 1 for a > 0
Dec(a) == Norm(DecFrom(a, 1))

Pow2(n) == ShiftL(<<1>>, n)
IsEven(a) == a = <<>> \/ a[1] % 2 = 0

\* n bytes, least significant first; the number fits
ToBytes(a, n) == [i \in 1..n |-> LET k == (i + 1) \div 2
                                 IN  IF k > Len(a) THEN 0
                                     ELSE IF i % 2 = 1 THEN a[k] % 256 ELSE a[k] \div 256]
RECURSIVE OfBytesFrom(_, _)
OfBytesFrom(b, i) == IF i > Len(b) THEN <<>>
                     ELSE <<b[i] + (IF i < Len(b) THEN 256 * b[i + 1] ELSE 0)>> \o OfBytesFrom(b, i + 2)
OfBytes(b) == Norm(OfBytesFrom(b, 1))
=============================================================================
