------------------------------- MODULE WitLex ------------------------------
(* Tokens of WIT documents over byte sequences; see WatLex for the result.

   Left open: what characters beyond ASCII are letters or spaces, identifiers
   that contain underscores, and explicit identifiers that do not start with a
   letter.                                                                   *)
EXTENDS Text

Digits  == 48..57
Letters == (65..90) \cup (97..122)
Spaces  == {32, 9, 10, 11, 12, 13}
IdStart == Letters \cup {95}
IdMore  == Letters \cup Digits \cup {45}

RECURSIVE RunWithin(_, _, _, _), RunFrom(_, _, _, _)
\* first position from i on that is not in S, or i + k
RunWithin(bs, i, k, S) ==
  IF k > 1 THEN LET j == RunWithin(bs, i, k \div 2, S)
                IN  IF j < i + (k \div 2) THEN j ELSE RunWithin(bs, j, k - (k \div 2), S)
  ELSE IF i <= Len(bs) /\ bs[i] \in S THEN i + 1 ELSE i
RunFrom(bs, i, k, S) == LET j == RunWithin(bs, i, k, S) IN IF j < i + k THEN j ELSE RunFrom(bs, j, 2 * k, S)
\* first position from i on that is not in S
RunEnd(bs, i, S) == RunFrom(bs, i, 4, S)
At(bs, p) == IF p <= Len(bs) THEN bs[p] ELSE -1

Keywords == { "use", "type", "func", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64",
              "float32", "float64", "char", "resource", "own", "borrow", "record", "flags",
              "variant", "enum", "union", "bool", "string", "option", "result", "future",
              "stream", "list", "_", "as", "from", "static", "interface", "tuple", "world",
              "import", "export", "package", "constructor", "include", "with" }

\* = , : . ; ( ) { } < > * @ +
Punctuation == {61, 44, 58, 46, 59, 40, 41, 123, 125, 60, 62, 42, 64, 43}

NotNewline == (0..255) \ {10}
NoBlock == (0..255) \ {42, 47}
RECURSIVE BlockSteps(_, _, _)
\* s is a place [i, d] in a block comment, d levels deep; the place at most k
\* comment signs later
BlockSteps(bs, s, k) ==
  IF s.d = 0 \/ s.i >= Len(bs) THEN s
  ELSE IF k > 1 THEN BlockSteps(bs, BlockSteps(bs, s, k \div 2), k - (k \div 2))
  ELSE IF bs[s.i] = 47 /\ bs[s.i + 1] = 42 THEN [i |-> s.i + 2, d |-> s.d + 1]
  ELSE IF bs[s.i] = 42 /\ bs[s.i + 1] = 47 THEN [i |-> s.i + 2, d |-> s.d - 1]
  ELSE [s EXCEPT !.i = RunEnd(bs, s.i + 1, NoBlock)]
BlockEnd(bs, i, d) == LET s == BlockSteps(bs, [i |-> i, d |-> d], Len(bs)) IN IF s.d = 0 THEN s.i ELSE 0

Ok(t, n) == [st |-> "ok", t |-> t, n |-> n]
Err      == [st |-> "err", t |-> "", n |-> 0]
Free     == [st |-> "free", t |-> "", n |-> 0]

\* a run of characters that ends at e (exclusive) in front of ASCII
RunTok(bs, p, e, t) == IF At(bs, e) >= 128 THEN Free ELSE Ok(t, e - p)
\* no keyword is longer than constructor
Word(bs, p, e) == IF e > p + 11 THEN "id"
                  ELSE LET w == Str(SubSeq(bs, p, e - 1)) IN IF w \in Keywords THEN w ELSE "id"

Tok(bs, p) ==
  LET c == At(bs, p)
      d == At(bs, p + 1) IN
  CASE c = -1 -> Ok("eof", 0)
    [] c >= 128 -> Free
    [] c \in Spaces -> RunTok(bs, p, RunEnd(bs, p, Spaces), "space")
    [] c = 47 /\ d = 47 -> Ok("linecomment", RunEnd(bs, p, NotNewline) - p)
    [] c = 47 /\ d = 42 -> LET e == BlockEnd(bs, p + 2, 1)
                           IN  IF e = 0 THEN Err ELSE Ok("blockcomment", e - p)
    [] c = 47 /\ d \notin {47, 42} -> Ok("/", 1)
    [] c = 45 /\ d = 62 -> Ok("->", 2)
    [] c = 45 /\ d # 62 -> Ok("-", 1)
    [] c \in Punctuation -> Ok(Chars[c - 32], 1)
    [] c = 37 -> IF d \in Letters
                 THEN LET e == RunEnd(bs, p + 2, IdMore)
                      IN  IF At(bs, e) = 95 THEN Free ELSE RunTok(bs, p, e, "explicit")
                 ELSE IF d >= 128 \/ d \in {95, 45} THEN Free ELSE Err
    [] c \in IdStart -> LET e == RunEnd(bs, p + 1, IdMore)
                        IN  IF At(bs, e) = 95 THEN Free ELSE RunTok(bs, p, e, Word(bs, p, e))
    [] c \in Digits -> RunTok(bs, p, RunEnd(bs, p, Digits), "integer")
    [] OTHER -> Err
=============================================================================
