------------------------------- MODULE Bytes -------------------------------
(* Little-endian byte sequences as the representation of fixed-width integers.
   TLC integers are 32 bit signed, so 32- and 64-bit quantities of the
   implementation are sequences of bytes; a quantity is turned into a TLC
   number only when it is known to be below 2^30.                            *)
EXTENDS Integers, Sequences, SequencesExt

Zeros(n) == [i \in 1..n |-> 0]

\* least significant first; value must fit
RECURSIVE NatToBytes(_, _)
NatToBytes(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o NatToBytes(x \div 256, n - 1)

\* the value is below 2^30
Small(bs) == /\ \A i \in 5..Len(bs) : bs[i] = 0
             /\ Len(bs) >= 4 => bs[4] < 64

RECURSIVE BytesToNatFrom(_, _)
BytesToNatFrom(bs, i) ==
  IF i > Len(bs) \/ i > 4 THEN 0 ELSE bs[i] + 256 * BytesToNatFrom(bs, i + 1)
\* only for Small(bs)
BytesToNat(bs) == BytesToNatFrom(bs, 1)

AllZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

\* zero- or sign-extension to n bytes
Sext(bs, n) ==
  LET fill == IF bs[Len(bs)] >= 128 THEN 255 ELSE 0
  IN  [i \in 1..n |-> IF i <= Len(bs) THEN bs[i] ELSE fill]
Zext(bs, n) == [i \in 1..n |-> IF i <= Len(bs) THEN bs[i] ELSE 0]
Trunc(bs, n) == SubSeq(bs, 1, n)

\* bs is a number, d a small digit, m a small multiplier: bs*m + d over the
\* same number of bytes; carry out is the last component
RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(bs, m, carry, i) ==
  IF i > Len(bs) THEN <<carry>>
  ELSE LET x == bs[i] * m + carry
       IN  <<x % 256>> \o MulAddFrom(bs, m, x \div 256, i + 1)
MulAdd(bs, m, d) == MulAddFrom(bs, m, d, 1)   \* Len(bs)+1 entries, last is the carry

\* two's complement negation
RECURSIVE NegFrom(_, _, _)
NegFrom(bs, carry, i) ==
  IF i > Len(bs) THEN <<>>
  ELSE LET x == (255 - bs[i]) + carry
       IN  <<x % 256>> \o NegFrom(bs, x \div 256, i + 1)
Neg(bs) == NegFrom(bs, 1, 1)

\* unsigned comparison of sequences of equal length
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i - 1)
BytesLt(a, b) == LtFrom(a, b, Len(a))
BytesLe(a, b) == a = b \/ BytesLt(a, b)

\* IEEE-754 NaNs over their bit patterns
IsNaN32(b) == b[4] % 128 = 127 /\ b[3] >= 128 /\ ~(b[3] = 128 /\ b[2] = 0 /\ b[1] = 0)
IsNaN64(b) == /\ b[8] % 128 = 127 /\ b[7] >= 240
              /\ ~(b[7] = 240 /\ \A i \in 1..6 : b[i] = 0)
Canon32 == <<0, 0, 192, 127>>
Canon64 == <<0, 0, 0, 0, 0, 0, 248, 127>>
CanonF32(b) == IF IsNaN32(b) THEN Canon32 ELSE b
CanonF64(b) == IF IsNaN64(b) THEN Canon64 ELSE b
=============================================================================
