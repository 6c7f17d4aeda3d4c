----------------------------- MODULE MC_WatNum -----------------------------
(* tiny: on a small format there is exactly one nearest number, the one with
         the least distance, or the value overflows.
   int:  integers around the powers of two, in both bases.
   mid:  floats around the midpoints between neighbouring numbers.
   lit:  literals by grammar.                                                *)
EXTENDS WatNum, Json, TLC

CONSTANTS TinyMax, Wide
VARIABLES mode, a, b, c

---- (* writing numbers *)

RECURSIVE DivFrom(_, _, _)
\* quotient limbs (most significant first) and remainder of a/10
DivFrom(x, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> r]
                    ELSE LET v == r * 65536 + x[i]
                             t == DivFrom(x, i - 1, v % 10)
                         IN  [q |-> t.q \o <<v \div 10>>, r |-> t.r]
RECURSIVE Decimal(_)
Decimal(x) == IF x = <<>> THEN <<>>
              ELSE LET d == DivFrom(x, Len(x), 0) IN Append(Decimal(Norm(d.q)), 48 + d.r)
Dec10(x) == IF x = <<>> THEN <<48>> ELSE Decimal(x)
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexFrom(_, _)
HexFrom(bytes, i) == IF i = 0 THEN <<>>
                     ELSE <<HexChar(bytes[i] \div 16), HexChar(bytes[i] % 16)>> \o HexFrom(bytes, i - 1)
Hex(x) == Zerox \o HexFrom(ToBytes(x, 2 * Len(x) + 1), 2 * Len(x) + 1)
IntText(n) == IF n < 0 THEN <<45>> \o Dec10(OfNat(-n)) ELSE Dec10(OfNat(n))

---- (* universe *)

Types == {"i32", "i64", "f32", "f64"}
Tiny == [p |-> 3, qmin |-> -3, qmax |-> 2]
Signs == {<<>>, <<43>>, <<45>>}
Ks == {7, 8, 15, 16, 24, 31, 32, 53, 63, 64} \cup (IF Wide THEN {1, 4, 23, 25, 33, 47, 48, 52, 54, 62, 65, 100, 128} ELSE {})
Sized(k, d) == IF d = -1 THEN Dec(Pow2(k)) ELSE IF d = 0 THEN Pow2(k) ELSE MulAdd(Pow2(k), 1, 1)

\* significands around the ends and the middle of their range
Ms(f) == {<<>>, <<1>>, <<2>>, <<3>>, Pow2(f.p - 1), MulAdd(Pow2(f.p - 1), 1, 1), Dec(Pow2(f.p)), Dec(Dec(Pow2(f.p))),
          Dec(Pow2(f.p - 1))} \cup (IF Wide THEN {Pow2(f.p \div 2), MulAdd(Pow2(f.p - 2), 3, 1), Dec(Dec(Dec(Pow2(f.p))))} ELSE {})
Qs(f) == {f.qmin, f.qmin + 1, -f.p, 0, 1, f.qmax - 1, f.qmax} \cup (IF Wide THEN {f.qmin + 2, f.qmin \div 2, -f.p - 1, 1 - f.p, 7, f.qmax \div 2} ELSE {})
Fmt(ty) == IF ty = "f32" THEN F32 ELSE F64
\* M is a significand at Q
InFormat(M, Q, f) == Cmp(M, Pow2(f.p - 1)) >= 0 \/ Q = f.qmin

\* 1 0_5 .5 . e1 p-3 and so on
IntParts == {<<48>>, <<49>>, <<55>>, <<48, 49, 48>>, <<49, 95, 48>>, <<57, 57, 57>>}
Fracs == {<<>>, <<46>>, <<46, 53>>, <<46, 48, 95, 53>>, <<46, 49, 50, 53>>, <<46, 48, 48, 48, 49>>}
Exps(hex) == LET e == IF hex THEN {112, 80} ELSE {101, 69}
             IN  {<<>>} \cup {<<x>> \o y : x \in e, y \in {<<48>>, <<50>>, <<43, 49>>, <<45, 50>>, <<49, 95, 48>>, <<45, 52, 48>>}}
Words == {Inf, Nan, NanPayload \o <<49>>, NanPayload \o <<48>>, NanPayload \o <<55, 102, 102, 102, 102, 102>>,
          NanPayload \o <<56, 48, 48, 48, 48, 48>>, NanPayload \o <<52, 48, 95, 48, 48, 48, 48>>,
          NanPayload \o <<102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102, 102>>,
          NanPayload \o <<49, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>,
          NanPayload \o <<56, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>}

Init ==
  \/ mode = "tiny" /\ a \in 0..TinyMax /\ b \in -2..1 /\ c = "dec"
  \/ mode = "tiny" /\ a \in 0..TinyMax /\ b \in -6..2 /\ c = "hex"
  \/ mode = "int" /\ a \in Ks /\ b \in -1..1 /\ c \in Types
  \/ mode = "mid" /\ c = "f32" /\ a \in Ms(F32) /\ b \in Qs(F32)
  \/ mode = "mid" /\ c = "f64" /\ a \in Ms(F64) /\ b \in Qs(F64)
  \/ mode = "lit" /\ a \in {<<x, y, z>> : x \in Signs, y \in IntParts, z \in Fracs} /\ b \in {"dec", "hex"} /\ c \in Types
  \/ mode = "word" /\ a \in Words /\ b \in Signs /\ c \in {"f32", "f64"}
Next == FALSE /\ UNCHANGED <<mode, a, b, c>>
Spec == Init /\ [][Next]_<<mode, a, b, c>>

---- (* laws *)

\* value times 6400
Scaled == IF c = "dec" THEN a * 64 * 10 ^ (b + 2) ELSE a * 100 * 2 ^ (b + 6)
Numbers == {m \in (0..7) \X (-3..2) : m[1] >= 4 \/ m[2] = -3}
NumScaled(m) == m[1] * 100 * 2 ^ (m[2] + 6)
Dist(m) == IF NumScaled(m) > Scaled THEN NumScaled(m) - Scaled ELSE Scaled - NumScaled(m)
TinyLaw == mode = "tiny" =>
  LET V == [d |-> OfNat(a), e |-> b, hex |-> c = "hex"]
      near == {m \in Numbers : Nearest(OfNat(m[1]), m[2], V, Tiny)}
  IN  IF Overflows(V, Tiny) THEN \A m \in near : m = <<7, 2>> => FALSE
      ELSE /\ \E m \in near : near = {m} /\ \A n \in Numbers : Dist(m) < Dist(n) \/ m = n \/ (Dist(m) = Dist(n) /\ m[1] % 2 = 0)
\* the midpoint behind M belongs to the even neighbour
MidLaw == (mode = "mid" /\ InFormat(a, b, Fmt(c))) =>
  LET f == Fmt(c)
      V == [d |-> TwicePlus1(a), e |-> b - 1, hex |-> TRUE]
      M1 == MulAdd(a, 1, 1)
      last == a = Dec(Pow2(f.p))
  IN  IF last /\ b = f.qmax THEN Overflows(V, f)
      ELSE /\ ~Overflows(V, f)
           /\ Nearest(a, b, V, f) = IsEven(a)
           /\ (IF last THEN Nearest(Pow2(f.p - 1), b + 1, V, f) ELSE Nearest(M1, b, V, f)) = ~IsEven(a)
IntLaw == mode = "int" =>
  LET x == Sized(a, b) IN
  /\ DigitsVal(Dec10(x), 10) = x
  /\ DigitsVal(Body(Hex(x)), 16) = x
  /\ OfBytes(ToBytes(x, 20)) = x

Out(ty, lit) == PrintT(ToJson([w |-> ty, lit |-> lit]))
Underscored(w) == IF Len(w) < 3 THEN w ELSE SubSeq(w, 1, Len(w) - 2) \o <<95>> \o SubSeq(w, Len(w) - 1, Len(w))
EmitInt == \A s \in Signs, t \in {Dec10(Sized(a, b)), Hex(Sized(a, b)), <<48>> \o Dec10(Sized(a, b)), Underscored(Dec10(Sized(a, b)))} :
             Out(c, s \o t)
EmitMid == InFormat(a, b, Fmt(c)) =>
  LET m  == TwicePlus1(a)
      up == MulAdd(m, 16, 1)
      dn == Dec(MulAdd(m, 16, 0)) IN
  /\ \A x \in {<<m, b - 1>>, <<up, b - 5>>, <<dn, b - 5>>} :
       Out(c, Hex(x[1]) \o <<112>> \o IntText(x[2]))
  /\ (b > 4 /\ b < 200) => \A x \in {<<m, b - 1>>, <<up, b - 5>>, <<dn, b - 5>>} : Out(c, Dec10(ShiftL(x[1], x[2])))
  /\ Out(c, <<45>> \o Hex(a) \o <<112>> \o IntText(b))
EmitLit == \A e \in Exps(b = "hex") : Out(c, a[1] \o (IF b = "hex" THEN Zerox ELSE <<>>) \o a[2] \o a[3] \o e)
Emit == CASE mode = "int" -> EmitInt
          [] mode = "mid" -> EmitMid
          [] mode = "lit" -> EmitLit
          [] mode = "word" -> Out(c, b \o a)
          [] OTHER -> TRUE
=============================================================================
