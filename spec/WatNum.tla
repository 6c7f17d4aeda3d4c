------------------------------- MODULE WatNum ------------------------------
(* The values of numeric literals.

   Integers are computed.  For floats the specification does not compute the
   nearest number but says when a number is the nearest one: exact comparisons
   of the literal with the midpoints to the neighbours of the number.  That
   there always is exactly one such number is checked on small formats by
   MC_WatNum.                                                                *)
EXTENDS WatLex, Big
B == INSTANCE Bytes

NoUnderscore(w) == SelectSeq(w, LAMBDA c : c # 95)

RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(u, i, base) == IF i = 0 THEN <<>>
                          ELSE MulAdd(DigitsFrom(u, i - 1, base), base, HexVal(u[i]))
\* the number with the digits u
DigitsVal(u, base) == Norm(DigitsFrom(u, Len(u), base))

IsHexWord(u) == StartsWith(u, Zerox)
Body(u) == IF IsHexWord(u) THEN SubSeq(u, 3, Len(u)) ELSE u

---- (* integers *)

\* [st, b]: the literal as an integer of the given number of bits
IntOf(w, bits) ==
  LET u   == NoUnderscore(Unsigned(w))
      neg == w[1] = 45
      x   == DigitsVal(Body(u), IF IsHexWord(u) THEN 16 ELSE 10) IN
  IF ~IsInteger(w) THEN [st |-> "err", b |-> <<>>]
  ELSE IF neg THEN IF Cmp(x, Pow2(bits - 1)) > 0 THEN [st |-> "err", b |-> <<>>]
                   ELSE [st |-> "ok", b |-> B!Neg(ToBytes(x, bits \div 8))]
  ELSE IF Cmp(x, Pow2(bits)) >= 0 THEN [st |-> "err", b |-> <<>>]
  ELSE [st |-> "ok", b |-> ToBytes(x, bits \div 8)]

\* an index, a limit: no sign
UintOf(w) == IF w # <<>> /\ w[1] \in {43, 45} THEN [st |-> "err", b |-> <<>>] ELSE IntOf(w, 32)

---- (* floats *)

\* a format: numbers are M*2^Q with M < 2^p, qmin <= Q <= qmax, and
\* M >= 2^(p-1) unless Q = qmin
F32 == [p |-> 24, qmin |-> -149, qmax |-> 104]
F64 == [p |-> 53, qmin |-> -1074, qmax |-> 971]

\* a value V is [d, e, hex]: d * 10^e, or d * 2^e if hex
CmpV(V, X, R) ==
  IF V.hex
  THEN Cmp(ShiftL(V.d, IF V.e > R THEN V.e - R ELSE 0), ShiftL(X, IF R > V.e THEN R - V.e ELSE 0))
  ELSE Cmp(ShiftL(MulPow10(V.d, IF V.e > 0 THEN V.e ELSE 0), IF R < 0 THEN -R ELSE 0),
           ShiftL(MulPow10(X, IF V.e < 0 THEN -V.e ELSE 0), IF R > 0 THEN R ELSE 0))

TwicePlus1(M) == MulAdd(M, 2, 1)
Above(M, Q, V) == LET c == CmpV(V, TwicePlus1(M), Q - 1) IN c < 0 \/ (c = 0 /\ IsEven(M))
Below(M, Q, V, f) ==
  IF M = <<>> THEN TRUE
  ELSE IF M = Pow2(f.p - 1) /\ Q > f.qmin
  THEN \* the numbers below are closer
       CmpV(V, Dec(MulAdd(M, 4, 0)), Q - 2) >= 0
  ELSE LET c == CmpV(V, Dec(MulAdd(M, 2, 0)), Q - 1) IN c > 0 \/ (c = 0 /\ IsEven(M))
\* M*2^Q is the number nearest to V, the even one if there are two
Nearest(M, Q, V, f) == Above(M, Q, V) /\ Below(M, Q, V, f)
\* V is nearer to the first number that is too large
Overflows(V, f) == CmpV(V, TwicePlus1(Dec(Pow2(f.p))), f.qmax - 1) >= 0

RECURSIVE NatFrom(_, _)
NatFrom(u, i) == IF i = 0 THEN 0
                 ELSE LET x == NatFrom(u, i - 1)
                      IN  IF x > 99999 THEN 999999 ELSE 10 * x + HexVal(u[i])

\* the value of a float literal without sign and underscores
ValueOf(u) ==
  LET hex == IsHexWord(u)
      v   == Body(u)
      S   == IF hex THEN HexDigits ELSE Digits
      i   == NumEnd(v, 1, S)
      j   == FracEnd(v, i, S)
      fr  == IF j > i + 1 THEN SubSeq(v, i + 1, j - 1) ELSE <<>>
      x   == IF j < Len(v) THEN SubSeq(v, j + 1, Len(v)) ELSE <<>>
      xd  == Unsigned(x)
      ex  == IF x # <<>> /\ x[1] = 45 THEN -NatFrom(xd, Len(xd)) ELSE NatFrom(xd, Len(xd))
      d   == DigitsVal(SubSeq(v, 1, i - 1) \o fr, IF hex THEN 16 ELSE 10)
  IN  [d |-> d, e |-> IF hex THEN ex - 4 * Len(fr) ELSE ex - Len(fr), hex |-> hex,
       \* number of digits
       n |-> IF hex THEN 16 * Len(d) ELSE 5 * Len(d)]

\* far beyond either end of both formats
TooBig(V)   == V.d # <<>> /\ V.e > (IF V.hex THEN 1100 ELSE 320)
TooSmall(V) == V.d = <<>> \/ V.e + V.n < (IF V.hex THEN -1200 ELSE -360)

Width(f) == IF f.p = 24 THEN 4 ELSE 8
SignBit(b) == b[Len(b)] >= 128
\* biased exponent and fraction of the bits b
ExpOf(b) == IF Len(b) = 4 THEN (b[4] % 128) * 2 + b[3] \div 128 ELSE (b[8] % 128) * 16 + b[7] \div 16
FracOf(b) == IF Len(b) = 4 THEN [i \in 1..3 |-> IF i = 3 THEN b[3] % 128 ELSE b[i]]
             ELSE [i \in 1..7 |-> IF i = 7 THEN b[7] % 16 ELSE b[i]]
MaxExp(f) == IF f.p = 24 THEN 255 ELSE 2047
Hidden(b) == IF Len(b) = 4 THEN [i \in 1..3 |-> IF i = 3 THEN (b[3] % 128) + 128 ELSE b[i]]
             ELSE [i \in 1..7 |-> IF i = 7 THEN (b[7] % 16) + 16 ELSE b[i]]

\* the bits b are right for a literal with the value V
FiniteOK(V, f, b) ==
  /\ ExpOf(b) < MaxExp(f)
  /\ IF TooSmall(V) THEN ExpOf(b) = 0 /\ B!AllZero(FracOf(b))
     ELSE IF ExpOf(b) = 0 THEN Nearest(OfBytes(FracOf(b)), f.qmin, V, f)
     ELSE Nearest(OfBytes(Hidden(b)), f.qmin + ExpOf(b) - 1, V, f)

Quiet(f) == [i \in 1..(Width(f) - 1) |-> IF i = Width(f) - 1 THEN (IF f.p = 24 THEN 64 ELSE 8) ELSE 0]
IsCanonical(b, f) == ExpOf(b) = MaxExp(f) /\ FracOf(b) = Quiet(f)

\* observation [st, b] for the literal w as a float constant
FloatOK(w, f, o) ==
  LET u   == NoUnderscore(Unsigned(w))
      neg == w[1] = 45
      sign == o.st = "ok" => SignBit(o.b) = neg IN
  IF ~(IsFloat(w) \/ IsInteger(w)) THEN o.st = "err"
  ELSE IF u = Inf THEN o.st = "ok" /\ sign /\ ExpOf(o.b) = MaxExp(f) /\ B!AllZero(FracOf(o.b))
  ELSE IF u = Nan THEN o.st = "ok" /\ sign /\ IsCanonical(o.b, f)
  ELSE IF u \in {NanCanonical, NanArithmetic} THEN o.st = "ok" => IsCanonical(o.b, f)
  ELSE IF StartsWith(u, Nan)
  THEN LET x == DigitsVal(SubSeq(u, 7, Len(u)), 16) IN
       IF x = <<>> \/ Cmp(x, Pow2(f.p - 1)) >= 0 THEN o.st = "err"
       ELSE o.st = "ok" /\ sign /\ ExpOf(o.b) = MaxExp(f) /\ FracOf(o.b) = ToBytes(x, Width(f) - 1)
  ELSE LET V == ValueOf(u) IN
       IF TooBig(V) THEN o.st = "err"
       ELSE IF ~TooSmall(V) /\ Overflows(V, f) THEN o.st = "err"
       ELSE o.st = "ok" /\ sign /\ FiniteOK(V, f, o.b)

\* any constant: ty is "i32", "i64", "f32" or "f64"
ConstOK(ty, w, o) ==
  CASE ty = "i32" -> LET e == IntOf(w, 32) IN IF e.st = "ok" THEN o.st = "ok" /\ o.b = e.b ELSE o.st = "err"
    [] ty = "i64" -> LET e == IntOf(w, 64) IN IF e.st = "ok" THEN o.st = "ok" /\ o.b = e.b ELSE o.st = "err"
    [] ty = "f32" -> FloatOK(w, F32, o)
    [] ty = "f64" -> FloatOK(w, F64, o)
=============================================================================
