------------------------------- MODULE WatLex ------------------------------
(* Tokens of the WebAssembly text format over byte sequences.

   Tok(bs, p) is the token that starts at byte p (from 1) of bs:
     st  "ok", "err" (no token starts here) or "free" (the input is outside of
         what the specification fixes, e.g. control characters in a string)
     t   token class,  n  length in bytes                                    *)
EXTENDS Integers, Sequences

Digits   == 48..57
HexDigits == (48..57) \cup (65..70) \cup (97..102)
Spaces   == {32, 9, 10, 13}
\* printable characters that are no delimiter: " ( ) , ; [ ] { }
IdChars  == (33..126) \ {34, 40, 41, 44, 59, 91, 93, 123, 125}

RECURSIVE RunWithin(_, _, _, _), RunFrom(_, _, _, _)
\* first position from i on that is not in S, or i + k
RunWithin(bs, i, k, S) ==
  IF k > 1 THEN LET j == RunWithin(bs, i, k \div 2, S)
                IN  IF j < i + (k \div 2) THEN j ELSE RunWithin(bs, j, k - (k \div 2), S)
  ELSE IF i <= Len(bs) /\ bs[i] \in S THEN i + 1 ELSE i
RunFrom(bs, i, k, S) == LET j == RunWithin(bs, i, k, S) IN IF j < i + k THEN j ELSE RunFrom(bs, j, 2 * k, S)
\* first position from i on that is not in S
RunEnd(bs, i, S) == RunFrom(bs, i, 4, S)

StartsWith(w, u) == Len(w) >= Len(u) /\ \A i \in 1..Len(u) : w[i] = u[i]

---- (* numbers *)

RECURSIVE NumMore(_, _, _, _)
\* where at most k digits lead that follow a digit, each perhaps after a _
NumMore(w, i, k, S) ==
  IF k > 1 THEN LET j == NumMore(w, i, k \div 2, S)
                IN  IF j = i THEN i ELSE NumMore(w, j, k - (k \div 2), S)
  ELSE IF i <= Len(w) /\ w[i] \in S THEN i + 1
  ELSE IF i < Len(w) /\ w[i] = 95 /\ w[i + 1] \in S THEN i + 2
  ELSE i
\* end of a number that starts at i; i itself if there is none
NumEnd(w, i, S) == IF i <= Len(w) /\ w[i] \in S THEN NumMore(w, i + 1, Len(w), S) ELSE i

Zerox == <<48, 120>>
Unsigned(w) == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
IsNum(u, i, S) == i <= Len(u) /\ NumEnd(u, i, S) = Len(u) + 1

IsInteger(w) == LET u == Unsigned(w)
                IN  IsNum(u, 1, Digits) \/ (StartsWith(u, Zerox) /\ IsNum(u, 3, HexDigits))

Inf == <<105, 110, 102>>
Nan == <<110, 97, 110>>
NanCanonical  == Nan \o <<58, 99, 97, 110, 111, 110, 105, 99, 97, 108>>
NanArithmetic == Nan \o <<58, 97, 114, 105, 116, 104, 109, 101, 116, 105, 99>>
NanPayload    == Nan \o <<58>> \o Zerox

\* [p, ok]: fraction and exponent behind the digits that end at i
FracEnd(u, i, S) == IF i <= Len(u) /\ u[i] = 46 THEN NumEnd(u, i + 1, S) ELSE i
ExpOK(u, j, E) ==
  \/ j = Len(u) + 1
  \/ /\ j <= Len(u) /\ u[j] \in E
     /\ LET k == IF j < Len(u) /\ u[j + 1] \in {43, 45} THEN j + 2 ELSE j + 1
        IN  IsNum(u, k, Digits)
IsFloat(w) ==
  LET u == Unsigned(w) IN
  \/ u \in {Inf, Nan, NanCanonical, NanArithmetic}
  \/ StartsWith(u, NanPayload) /\ IsNum(u, 7, HexDigits)
  \/ LET i == NumEnd(u, 1, Digits)
     IN  i > 1 /\ ExpOK(u, FracEnd(u, i, Digits), {69, 101})
  \/ /\ StartsWith(u, Zerox)
     /\ LET i == NumEnd(u, 3, HexDigits)
        IN  i > 3 /\ ExpOK(u, FracEnd(u, i, HexDigits), {80, 112})

Module    == <<109, 111, 100, 117, 108, 101>>
Component == <<99, 111, 109, 112, 111, 110, 101, 110, 116>>

WordClass(w) ==
  IF w[1] = 36 /\ Len(w) > 1 THEN "id"
  ELSE IF IsInteger(w) THEN "integer"
  ELSE IF IsFloat(w) THEN "float"
  ELSE IF w = Module THEN "module"
  ELSE IF w = Component THEN "component"
  ELSE "reserved"

---- (* comments and strings *)

NotNewline == (0..255) \ {10}
NoBlock == (0..255) \ {40, 59}
RECURSIVE BlockSteps(_, _, _)
\* s is a place [i, d] in a block comment, d levels deep; the place at most k
\* comment signs later
BlockSteps(bs, s, k) ==
  IF s.d = 0 \/ s.i >= Len(bs) THEN s
  ELSE IF k > 1 THEN BlockSteps(bs, BlockSteps(bs, s, k \div 2), k - (k \div 2))
  ELSE IF bs[s.i] = 40 /\ bs[s.i + 1] = 59 THEN [i |-> s.i + 2, d |-> s.d + 1]
  ELSE IF bs[s.i] = 59 /\ bs[s.i + 1] = 41 THEN [i |-> s.i + 2, d |-> s.d - 1]
  ELSE [s EXCEPT !.i = RunEnd(bs, s.i + 1, NoBlock)]
\* first position behind a block comment that is d levels deep at i, 0 if it
\* does not end
BlockEnd(bs, i, d) == LET s == BlockSteps(bs, [i |-> i, d |-> d], Len(bs)) IN IF s.d = 0 THEN s.i ELSE 0

HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE HexNat(_, _, _)
\* value of the hexadecimal number w[i..j], at most 2^24
HexNat(w, i, j) ==
  IF j < i THEN 0
  ELSE IF w[j] = 95 THEN HexNat(w, i, j - 1)
  ELSE LET x == HexNat(w, i, j - 1) IN IF x > 1048576 THEN 16777216 ELSE 16 * x + HexVal(w[j])
IsScalar(x) == x < 55296 \/ (x > 57343 /\ x <= 1114111)

PlainChars == (32..255) \ {34, 92, 127}
\* s is a place [st, i] in a string, where st tells if something is odd with it
\* so far: a control character ("free") or an escaped number that is no
\* character ("nochar"); behind its end st starts with "end"
StrStep(bs, s) ==
  LET i == s.i
      bad == [s EXCEPT !.st = IF s.st = "free" THEN "lost" ELSE "err"]
      odd(st) == IF s.st = "free" THEN "free" ELSE st IN
  IF i > Len(bs) THEN bad
  ELSE IF bs[i] = 34 THEN [st |-> "end " \o s.st, i |-> i + 1]
  ELSE IF bs[i] # 92 THEN [st |-> IF bs[i] < 32 \/ bs[i] = 127 THEN "free" ELSE s.st, i |-> RunEnd(bs, i + 1, PlainChars)]
  ELSE IF i = Len(bs) THEN bad
  ELSE LET c == bs[i + 1] IN
       IF c \in {116, 110, 114, 34, 39, 92} THEN [s EXCEPT !.i = i + 2]
       ELSE IF c \in HexDigits THEN
              IF i + 2 <= Len(bs) /\ bs[i + 2] \in HexDigits THEN [s EXCEPT !.i = i + 3] ELSE bad
       ELSE IF c = 117 /\ i + 2 <= Len(bs) /\ bs[i + 2] = 123 THEN
              LET j == NumEnd(bs, i + 3, HexDigits) IN
              IF j > i + 3 /\ j <= Len(bs) /\ bs[j] = 125
              THEN [st |-> IF IsScalar(HexNat(bs, i + 3, j - 1)) THEN s.st ELSE odd("nochar"), i |-> j + 1]
              ELSE bad
       ELSE bad
RECURSIVE StrSteps(_, _, _)
StrSteps(bs, s, k) ==
  IF s.st \notin {"ok", "free", "nochar"} THEN s
  ELSE IF k > 1 THEN StrSteps(bs, StrSteps(bs, s, k \div 2), k - (k \div 2))
  ELSE StrStep(bs, s)
\* a string from byte i on, behind the opening quote, and where it ends;
\* decoded bytes are not needed for that, see StrBytes
StrEnd(bs, i) ==
  LET s == StrSteps(bs, [st |-> "ok", i |-> i], Len(bs) + 1) IN
  CASE s.st = "end ok" -> [st |-> "ok", n |-> s.i]
    [] s.st = "end nochar" -> [st |-> "nochar", n |-> 0]
    [] s.st \in {"end free", "lost"} -> [st |-> "free", n |-> 0]
    [] OTHER -> [st |-> "err", n |-> 0]

Ok(t, n) == [st |-> "ok", t |-> t, n |-> n]
Err      == [st |-> "err", t |-> "", n |-> 0]
Free     == [st |-> "free", t |-> "", n |-> 0]
At(bs, p) == IF p <= Len(bs) THEN bs[p] ELSE -1

Tok(bs, p) ==
  LET c == At(bs, p)
      d == At(bs, p + 1) IN
  CASE c = -1 -> Ok("eof", 0)
    [] c \in {11, 12} -> Free     \* white space to some
    [] c \in Spaces -> LET e == RunEnd(bs, p, Spaces)
                       IN  IF At(bs, e) \in {11, 12} THEN Free ELSE Ok("space", e - p)
    [] c = 59 -> IF d = 59
                 THEN LET e == RunEnd(bs, p, NotNewline)
                      IN  Ok("linecomment", IF e <= Len(bs) THEN e + 1 - p ELSE e - p)
                 ELSE Err
    [] c = 40 /\ d = 59 -> LET e == BlockEnd(bs, p + 2, 1)
                           IN  IF e = 0 THEN Err ELSE Ok("blockcomment", e - p)
    [] c = 40 /\ d # 59 -> Ok("open", 1)
    [] c = 41 -> Ok("close", 1)
    [] c = 34 -> LET s == StrEnd(bs, p + 1)
                 IN  IF s.st = "ok" THEN Ok("string", s.n - p) ELSE IF s.st = "err" THEN Err
                     ELSE [Free EXCEPT !.t = s.st]
    [] c \in IdChars -> LET e == RunEnd(bs, p, IdChars)
                        IN  Ok(WordClass(SubSeq(bs, p, e - 1)), e - p)
    [] OTHER -> Err
=============================================================================
