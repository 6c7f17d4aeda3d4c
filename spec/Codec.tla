------------------------------- MODULE Codec -------------------------------
(* Converting text between UTF-8 and the encoding of a codec while it arrives
   in pieces.                                                                *)
EXTENDS Unicode

Names == {"utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin1", "latin1+utf16"}
\* from and to of the operations "enc" and "dec" of the codec e
From(op, e) == IF op = "enc" THEN "utf-8" ELSE e
To(op, e)   == IF op = "enc" THEN e ELSE "utf-8"

Replacement == 65533

---- (* the character that bytes begin with *)

\* a beginning of the UTF-8 form of some character, but not a whole one
Utf8Begun(b) ==
  \/ Len(b) = 1 /\ b[1] \in 194..244
  \/ Len(b) = 2 /\ b[1] \in 224..244 /\ Cont(b[2])
     /\ (b[1] = 224 => b[2] >= 160) /\ (b[1] = 237 => b[2] < 160)
     /\ (b[1] = 240 => b[2] >= 144) /\ (b[1] = 244 => b[2] < 144)
  \/ Len(b) = 3 /\ b[1] \in 240..244 /\ Cont(b[2]) /\ Cont(b[3])
     /\ (b[1] = 240 => b[2] >= 144) /\ (b[1] = 244 => b[2] < 144)

Unit(e, bs, p) == IF e = "utf-16-be" THEN 256 * bs[p] + bs[p + 1] ELSE bs[p] + 256 * bs[p + 1]
Lead(u) == u \in 55296..56319
Trail(u) == u \in 56320..57343

\* at position p: [st, c, n]; st is "char", "more" if the bytes end inside of
\* it, or "bad" with the number of bytes that can be no part of a character
CharAt(e, bs, p) ==
  LET left == Len(bs) - p + 1
      more == [st |-> "more", c |-> 0, n |-> left]
      bad(n) == [st |-> "bad", c |-> 0, n |-> n]
      char(c, n) == [st |-> "char", c |-> c, n |-> n] IN
  CASE e = "utf-8" ->
         LET r == Utf8At(bs, p)
         IN  IF r[2] > 0 THEN char(r[1], r[2])
             ELSE IF Utf8Begun(SubSeq(bs, p, Len(bs))) THEN more ELSE bad(1)
    [] e \in {"latin1", "latin1+utf16"} -> char(bs[p], 1)
    [] OTHER ->
         IF left < 2 THEN more
         ELSE LET u == Unit(e, bs, p) IN
              IF ~Lead(u) /\ ~Trail(u) THEN char(u, 2)
              ELSE IF Trail(u) THEN bad(2)
              ELSE IF left < 4 THEN more
              ELSE LET v == Unit(e, bs, p + 2)
                   IN  IF Trail(v) THEN char(65536 + (u - 55296) * 1024 + v - 56320, 4) ELSE bad(2)

RECURSIVE TextFrom(_, _, _, _)
\* at most k of the characters of bs from p on, and where they end; damage is -1
TextFrom(e, bs, p, k) ==
  IF p > Len(bs) \/ k = 0 THEN [t |-> <<>>, p |-> p]
  ELSE IF k > 1
  THEN LET a == TextFrom(e, bs, p, k \div 2)
           b == TextFrom(e, bs, a.p, k - k \div 2)
       IN  [t |-> a.t \o b.t, p |-> b.p]
  ELSE LET r == CharAt(e, bs, p)
       IN  IF r.st = "char" THEN [t |-> <<r.c>>, p |-> p + r.n]
           ELSE [t |-> <<-1>>, p |-> IF r.st = "more" /\ e = "utf-8" THEN p + 1
                                     ELSE IF r.st = "more" THEN p + 2 ELSE p + r.n]
TextOf(e, bs) == TextFrom(e, bs, 1, Len(bs)).t
Whole(t) == \A i \in 1..Len(t) : t[i] # -1

\* the characters before the first that is damaged or that e can not express
GoodPart(e, t) == LET n == SelectInSeq(t, LAMBDA c : c = -1 \/ ~CanEncode(e, <<c>>))
                  IN  IF n = 0 THEN t ELSE SubSeq(t, 1, n - 1)

RECURSIVE CollapsedPart(_, _, _)
CollapsedPart(t, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN <<IF t[i] = -1 THEN Replacement ELSE t[i]>>
  ELSE LET m == (i + j) \div 2
           a == CollapsedPart(t, i, m)
           b == CollapsedPart(t, m + 1, j)
       IN  IF a[Len(a)] = Replacement /\ b[1] = Replacement THEN a \o Tail(b) ELSE a \o b
\* damage and replacement characters, however many of them, as one
Collapsed(t) == CollapsedPart(t, 1, Len(t))

IsPart(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* May converting bs end with st and the bytes out having been written?  The
   reader fails behind bs if broken, the writer takes no more than room bytes
   if room is not negative.                                                  *)
Allowed(op, e, bs, broken, room, st, out) ==
  LET t == TextOf(From(op, e), bs)
      to == To(op, e)
      good == Encode(to, GoodPart(to, t))
      exact == Whole(t) /\ CanEncode(to, t) IN
  IF exact
  THEN IF broken \/ (room >= 0 /\ room < Len(good)) THEN st = "err" /\ IsPart(out, good)
       ELSE st = "ok" /\ out = good
  ELSE IF Whole(t) THEN st = "err" /\ IsPart(out, good)
  ELSE \* damaged: an error, or replacement characters in its place
       LET got == TextOf(to, out) IN
       \/ st = "err" /\ (IsPart(out, good) \/ IsPart(good, out))
       \/ st = "ok" /\ ~broken /\ (room < 0 \/ Len(out) <= room) /\ Whole(got) /\ Collapsed(got) = Collapsed(t)

---- (* which codec has a name *)

UnitBytes(e) == UnitSize(e)
\* the codecs that a factory was given, in order: the last one of a name is found
Found(cs, name) == \E i \in 1..Len(cs) : cs[i] = name
=============================================================================
