----------------------------- MODULE LexHistory ----------------------------
(* A lexer as a state machine: its only state is the place where it reads.
   Reading advances it, peeking does not, and a clone is a lexer of its own
   that starts where the original is.

   ops is a sequence of [op, l]: "next", "peek" or "drain" lexer l, or "clone"
   it; lexers are numbered from 1 in the order of creation.  "drain" reads up
   to the end of the input and once more.  An observation is a sequence with
   one [st, toks] for each operation; a token is
   [st |-> "ok" or "err", t, pos, line, col, cap].

   A lexer that has reported an error by "next" is not specified any more
   (p = 0).  Where the specification of the tokens says nothing ("free"), a
   token may have any class and length, but it still is the piece of the input
   at its place, and the lexer goes on behind it.                            *)
EXTENDS Integers, Sequences
CONSTANT TokAt(_, _)

Start == [p |-> 1, line |-> 0, col |-> 0]
Lost  == [p |-> 0, line |-> 0, col |-> 0]

RECURSIVE LastIn(_, _, _)
LastIn(w, i, j) == IF i > j THEN 0
                   ELSE IF i = j THEN IF w[i] = 10 THEN i ELSE 0
                   ELSE LET r == LastIn(w, (i + j) \div 2 + 1, j)
                        IN  IF r # 0 THEN r ELSE LastIn(w, i, (i + j) \div 2)
LastNewline(w) == LastIn(w, 1, Len(w))
NewlineCount(w) == Len(SelectSeq(w, LAMBDA x : x = 10))
Advance(s, w) == [p    |-> s.p + Len(w),
                  line |-> s.line + NewlineCount(w),
                  col  |-> IF LastNewline(w) = 0 THEN s.col + Len(w) ELSE Len(w) - LastNewline(w)]

\* the token o is the one at s
SameToken(o, r, s, w) ==
  o.st = "ok" /\ o.t = r.t /\ o.cap = w /\ o.pos = s.p - 1 /\ o.line = s.line /\ o.col = s.col

AnyToken(bs, s, o) ==
  IF Len(o.cap) = 0 \/ s.p + Len(o.cap) - 1 > Len(bs) THEN [ok |-> FALSE, s |-> s]
  ELSE LET w == SubSeq(bs, s.p, s.p + Len(o.cap) - 1)
       IN  [ok |-> o.cap = w /\ o.pos = s.p - 1 /\ o.line = s.line /\ o.col = s.col, s |-> Advance(s, w)]

\* [ok, s]: is the observation right, and where is the lexer now
Read(bs, s, o) ==
  IF s.p = 0 THEN [ok |-> TRUE, s |-> s]
  ELSE LET r == TokAt(bs, s.p)
           w == SubSeq(bs, s.p, s.p + r.n - 1) IN
       CASE r.st = "free" -> IF o.st # "ok" THEN [ok |-> TRUE, s |-> Lost]
                             ELSE AnyToken(bs, s, o)
         [] r.st = "err"  -> [ok |-> o.st = "err", s |-> Lost]
         [] OTHER         -> [ok |-> SameToken(o, r, s, w), s |-> Advance(s, w)]

RECURSIVE ReadAll(_, _, _, _, _)
\* reading the tokens i to j
ReadAll(bs, s, toks, i, j) ==
  IF i = j THEN Read(bs, s, toks[i])
  ELSE LET a == ReadAll(bs, s, toks, i, (i + j) \div 2)
       IN  IF a.ok THEN ReadAll(bs, a.s, toks, (i + j) \div 2 + 1, j) ELSE a
Drain(bs, s, toks) ==
  Len(toks) > 0 /\
  LET r == ReadAll(bs, s, toks, 1, Len(toks))
  IN  /\ r.ok
      /\ \* the last token was an error or the second end of the input
         r.s.p = 0 \/ (Len(toks) >= 2 /\ r.s.p = Len(bs) + 1
                       /\ toks[Len(toks)].st = "ok" /\ toks[Len(toks)].t = "eof"
                       /\ toks[Len(toks) - 1].st = "ok" /\ toks[Len(toks) - 1].t = "eof")

RECURSIVE Run(_, _, _, _, _)
Run(bs, ops, obs, k, S) ==
  IF k > Len(ops) THEN TRUE
  ELSE LET op == ops[k]
           o  == obs[k]
           l  == op.l IN
       IF o.st # "ok" THEN FALSE
       ELSE CASE op.op = "clone" -> Run(bs, ops, obs, k + 1, Append(S, S[l]))
              [] op.op = "drain" -> /\ S[l].p = 0 \/ Drain(bs, S[l], o.toks)
                                    /\ Run(bs, ops, obs, k + 1, [S EXCEPT ![l] = Lost])
              [] op.op = "next"  -> LET r == Read(bs, S[l], o.toks[1])
                                    IN  r.ok /\ Run(bs, ops, obs, k + 1, [S EXCEPT ![l] = r.s])
              [] op.op = "peek"  -> LET r == Read(bs, S[l], o.toks[1])
                                    IN  r.ok /\ Run(bs, ops, obs, k + 1, S)
Accept(i, o) == IF o.st # "ok" THEN FALSE
                ELSE Len(o.obs) = Len(i.ops) /\ Run(i.bs, i.ops, o.obs, 1, <<Start>>)
=============================================================================
