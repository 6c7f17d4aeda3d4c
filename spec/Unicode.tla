------------------------------ MODULE Unicode ------------------------------
(* Encodings of sequences of Unicode scalar values into bytes, and the
   decoders, which are partial: an ill-formed byte string has no decoding.   *)
EXTENDS Integers, Sequences, SequencesExt

Scalar(c) == c \in 0..1114111 /\ ~(c >= 55296 /\ c <= 57343)

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* UTF-16 code units of a scalar value
UnitsOf(c) == IF c < 65536 THEN <<c>>
              ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
UnitLE(u) == <<u % 256, u \div 256>>
UnitBE(u) == <<u \div 256, u % 256>>

RECURSIVE JoinPart(_, _, _)
\* the sequences ss[i..j], joined
JoinPart(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                      ELSE LET m == (i + j) \div 2 IN JoinPart(ss, i, m) \o JoinPart(ss, m + 1, j)
Joined(ss) == LET all == ss \o <<>> IN JoinPart(all, 1, Len(all))

EncUtf8(s)    == Joined([i \in 1..Len(s) |-> Utf8Of(s[i])])
Units(s)      == Joined([i \in 1..Len(s) |-> UnitsOf(s[i])])
EncUtf16LE(s) == LET u == Units(s) IN Joined([i \in 1..Len(u) |-> UnitLE(u[i])])
EncUtf16BE(s) == LET u == Units(s) IN Joined([i \in 1..Len(u) |-> UnitBE(u[i])])
IsLatin1(s)   == \A i \in 1..Len(s) : s[i] < 256
EncLatin1(s)  == s

NoText == <<-1>>     \* the result of decoding an ill-formed byte string

Cont(b) == b >= 128 /\ b < 192
\* one scalar value at position i: <<value, length>>, or <<-1, 0>>
Utf8At(bs, i) ==
  LET b == bs[i]
      n == Len(bs) - i
      bad == <<-1, 0>>
  IN IF b < 128 THEN <<b, 1>>
     ELSE IF b >= 194 /\ b < 224 THEN
       IF n >= 1 /\ Cont(bs[i+1]) THEN <<(b - 192) * 64 + bs[i+1] - 128, 2>> ELSE bad
     ELSE IF b >= 224 /\ b < 240 THEN
       IF n >= 2 /\ Cont(bs[i+1]) /\ Cont(bs[i+2])
       THEN LET c == (b - 224) * 4096 + (bs[i+1] - 128) * 64 + bs[i+2] - 128
            IN IF c >= 2048 /\ Scalar(c) THEN <<c, 3>> ELSE bad
       ELSE bad
     ELSE IF b >= 240 /\ b < 245 THEN
       IF n >= 3 /\ Cont(bs[i+1]) /\ Cont(bs[i+2]) /\ Cont(bs[i+3])
       THEN LET c == (b - 240) * 262144 + (bs[i+1] - 128) * 4096
                     + (bs[i+2] - 128) * 64 + bs[i+3] - 128
            IN IF c >= 65536 /\ c <= 1114111 THEN <<c, 4>> ELSE bad
       ELSE bad
     ELSE bad

RECURSIVE DecUtf8From(_, _, _)
\* at most k scalar values from i on, and where they end, 0 if they are ill-formed
DecUtf8From(bs, i, k) ==
  IF i = 0 \/ i > Len(bs) \/ k = 0 THEN [t |-> <<>>, i |-> i]
  ELSE IF k > 1
  THEN LET a == DecUtf8From(bs, i, k \div 2)
           b == DecUtf8From(bs, a.i, k - k \div 2)
       IN  [t |-> a.t \o b.t, i |-> b.i]
  ELSE LET r == Utf8At(bs, i)
       IN  IF r[2] = 0 THEN [t |-> <<>>, i |-> 0] ELSE [t |-> <<r[1]>>, i |-> i + r[2]]
DecUtf8(bs) == LET r == DecUtf8From(bs, 1, Len(bs)) IN IF r.i = 0 THEN NoText ELSE r.t

RECURSIVE DecUnitsFrom(_, _, _)
DecUnitsFrom(us, i, k) ==
  IF i = 0 \/ i > Len(us) \/ k = 0 THEN [t |-> <<>>, i |-> i]
  ELSE IF k > 1
  THEN LET a == DecUnitsFrom(us, i, k \div 2)
           b == DecUnitsFrom(us, a.i, k - k \div 2)
       IN  [t |-> a.t \o b.t, i |-> b.i]
  ELSE LET u == us[i] IN
    IF u < 55296 \/ u > 57343 THEN [t |-> <<u>>, i |-> i + 1]
    ELSE IF u < 56320 /\ i < Len(us) /\ us[i+1] >= 56320 /\ us[i+1] <= 57343
         THEN [t |-> <<65536 + (u - 55296) * 1024 + us[i+1] - 56320>>, i |-> i + 2]
         ELSE [t |-> <<>>, i |-> 0]
DecUnits(us) == LET r == DecUnitsFrom(us, 1, Len(us)) IN IF r.i = 0 THEN NoText ELSE r.t
DecUtf16LE(bs) ==
  IF Len(bs) % 2 = 1 THEN NoText
  ELSE DecUnits([i \in 1..(Len(bs) \div 2) |-> bs[2*i-1] + 256 * bs[2*i]] \o <<>>)
DecUtf16BE(bs) ==
  IF Len(bs) % 2 = 1 THEN NoText
  ELSE DecUnits([i \in 1..(Len(bs) \div 2) |-> bs[2*i] + 256 * bs[2*i-1]] \o <<>>)
DecLatin1(bs) == bs

\* The codecs by name.  "latin1+utf16" as a codec of its own is latin1.
CanEncode(enc, s) == enc \in {"latin1", "latin1+utf16"} => IsLatin1(s)
Encode(enc, s) ==
  CASE enc = "utf-8" -> EncUtf8(s)
    [] enc \in {"utf-16", "utf-16-le"} -> EncUtf16LE(s)
    [] enc = "utf-16-be" -> EncUtf16BE(s)
    [] OTHER -> EncLatin1(s)
Decode(enc, bs) ==
  CASE enc = "utf-8" -> DecUtf8(bs)
    [] enc \in {"utf-16", "utf-16-le"} -> DecUtf16LE(bs)
    [] enc = "utf-16-be" -> DecUtf16BE(bs)
    [] OTHER -> DecLatin1(bs)
UnitSize(enc) == IF enc \in {"utf-16", "utf-16-le", "utf-16-be"} THEN 2 ELSE 1
EncAlign(enc) == IF enc = "utf-8" THEN 1 ELSE 2
=============================================================================
