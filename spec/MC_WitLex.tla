----------------------------- MODULE MC_WitLex -----------------------------
(* Every short text, every byte in every surrounding, every keyword and what is
   almost one, and every short history of reading, peeking and cloning.      *)
EXTENDS WitLex, Json, TLC

CONSTANTS TextLen, OpsLen
VARIABLES mode, bs, ops

\* space nl / * - > % _ a 0 { ; ! and a byte of a multi-byte character
TextChars == {32, 10, 47, 42, 45, 62, 37, 95, 97, 48, 123, 59, 33, 195}

\* use a.{b as c}; // d | /* a /* b */ */0->%use | a <newline> b  c | a /* b | a!b | empty
Texts == { <<117, 115, 101, 32, 97, 46, 123, 98, 32, 97, 115, 32, 99, 125, 59, 32, 47, 47, 32, 100>>,
           <<47, 42, 97, 47, 42, 98, 42, 47, 42, 47, 48, 45, 62, 37, 117, 115, 101>>,
           <<97, 10, 10, 98, 32, 32, 99>>,
           <<97, 32, 47, 42, 98>>, <<97, 33, 98>>, <<>> }

\* empty a a- %a 1 /* // - / | empty a - */ <newline> 1
Before == { <<>>, <<97>>, <<97, 45>>, <<37, 97>>, <<37>>, <<49>>, <<47, 42>>, <<47, 47>>, <<45>>, <<47>>, <<65>> }
Behind == { <<>>, <<97>>, <<45, 98>>, <<42, 47>>, <<10>>, <<49>> }

Bytes(s) == [i \in 1..Len(s) |-> CHOOSE c \in 33..126 : Chars[c - 32] = SubSeq(s, i, i)] \o <<>>
Upper(w) == [w EXCEPT ![1] = IF w[1] \in 97..122 THEN w[1] - 32 ELSE w[1]]
Near(w) == { w, SubSeq(w, 1, Len(w) - 1), Tail(w), Upper(w), <<37>> \o w, w \o <<45>> \o w }
           \cup { w \o <<c>> : c \in {97, 45, 95, 48, 32, 60, 123, 46, 56} }

Lexers == 1 + Len(SelectSeq(ops, LAMBDA o : o.op = "clone"))
Init == /\ ops = <<>>
        /\ \/ mode = "text" /\ bs = <<>>
           \/ mode = "byte" /\ bs \in {a \o <<c>> \o b : a \in Before, c \in 0..255, b \in Behind}
           \/ mode = "word" /\ bs \in UNION {Near(Bytes(s)) : s \in Keywords}
           \/ mode = "hist" /\ bs \in Texts
Next == /\ UNCHANGED mode
        /\ \/ mode = "text" /\ Len(bs) < TextLen /\ UNCHANGED ops
              /\ \E c \in TextChars : bs' = Append(bs, c)
           \/ mode = "hist" /\ Len(ops) < OpsLen /\ UNCHANGED bs
              /\ \E l \in 1..Lexers, op \in {"next", "peek", "clone"} :
                   /\ op = "clone" => Lexers < 3
                   /\ ops' = Append(ops, [op |-> op, l |-> l])
Spec == Init /\ [][Next]_<<mode, bs, ops>>

RECURSIVE Ends(_, _)
Ends(w, p) == LET r == Tok(w, p) IN
              IF r.st # "ok" THEN <<0>> ELSE IF r.n = 0 THEN <<>> ELSE <<p + r.n - 1>> \o Ends(w, p + r.n)

\* tokens make up the text; white space and comments end
\* where they must
TextLaws == mode \in {"text", "byte", "word"} =>
  LET e == Ends(bs, 1) IN
  /\ \A i \in 1..Len(e) : e[i] > (IF i = 1 THEN 0 ELSE e[i - 1]) \/ (i = Len(e) /\ e[i] = 0)
  /\ (e # <<>> /\ e[Len(e)] # 0) => e[Len(e)] = Len(bs)
  /\ \A i \in 1..Len(e) - 1 : e[i] # 0 =>
       LET s == IF i = 1 THEN 1 ELSE e[i - 1] + 1
           t == Tok(bs, s).t IN
       /\ t = "space" => At(bs, e[i] + 1) \notin Spaces
       /\ t = "linecomment" => At(bs, e[i] + 1) = 10
       /\ t = "blockcomment" => bs[s] = 47 /\ bs[e[i]] = 47 /\ bs[e[i] - 1] = 42

Drain == <<[op |-> "drain", l |-> 1]>>
Out(t, o) == PrintT(ToJson([bs |-> t, ops |-> o]))
Emit == CASE mode \in {"text", "byte", "word"} -> Len(bs) >= 1 => Out(bs, Drain)
          [] mode = "hist" -> Len(ops) = OpsLen =>
               Out(bs, ops \o [k \in 1..Lexers |-> [op |-> "drain", l |-> k]])
=============================================================================
