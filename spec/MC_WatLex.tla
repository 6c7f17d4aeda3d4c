----------------------------- MODULE MC_WatLex -----------------------------
(* Every short text, every byte in every surrounding, every short number-like
   word, and every short history of reading, peeking and cloning.            *)
EXTENDS WatLex, Json, TLC

CONSTANTS TextLen, WordLen, OpsLen
VARIABLES mode, bs, ops

\* space nl ( ) ; " \ $ a 0 _ x u { [ and a byte of a multi-byte character
TextChars == {32, 10, 40, 41, 59, 34, 92, 36, 97, 48, 95, 120, 117, 123, 125, 91, 195}
\* 0 1 _ . x e p a - n
WordChars == {48, 49, 95, 46, 120, 101, 112, 97, 45}

\* (a) $b ;;c | "a\"b"(;x(;;);)0 | a <newline> b  c | "unterminated | a,b | (; | empty
Texts == { <<40, 97, 41, 32, 36, 98, 10, 59, 59, 99>>,
           <<34, 97, 92, 34, 98, 34, 40, 59, 120, 40, 59, 59, 41, 59, 41, 48>>,
           <<97, 10, 10, 98, 32, 32, 99>>,
           <<97, 32, 34, 98>>, <<97, 44, 98>>, <<40, 40, 59>>, <<>> }

\* empty a $ " "\ 0x 1 (; ;; 1e "\u{1 (nan:0x | empty a " ;) <newline> 1 }"
Before == { <<>>, <<97>>, <<36>>, <<34>>, <<34, 92>>, <<48, 120>>, <<49>>, <<40, 59>>, <<59, 59>>, <<49, 101>>,
            <<34, 92, 117, 123, 49>>, <<110, 97, 110, 58, 48, 120>>, <<34, 92, 97>>, <<48, 120, 49, 46>>, <<48, 120, 49, 112>> }
Behind == { <<>>, <<97>>, <<34>>, <<59, 41>>, <<10>>, <<49>>, <<125, 34>> }

Lexers == 1 + Len(SelectSeq(ops, LAMBDA o : o.op = "clone"))

Init == /\ ops = <<>>
        /\ \/ mode \in {"text", "word"} /\ bs = <<>>
           \/ mode = "byte" /\ bs \in {a \o <<c>> \o b : a \in Before, c \in 0..255, b \in Behind}
           \/ mode = "hist" /\ bs \in Texts
Next == /\ UNCHANGED mode
        /\ \/ mode = "text" /\ Len(bs) < TextLen /\ UNCHANGED ops
              /\ \E c \in TextChars : bs' = Append(bs, c)
           \/ mode = "word" /\ Len(bs) < WordLen /\ UNCHANGED ops
              /\ \E c \in WordChars : bs' = Append(bs, c)
           \/ mode = "hist" /\ Len(ops) < OpsLen /\ UNCHANGED bs
              /\ \E l \in 1..Lexers, op \in {"next", "peek", "clone"} :
                   /\ op = "clone" => Lexers < 3
                   /\ ops' = Append(ops, [op |-> op, l |-> l])
Spec == Init /\ [][Next]_<<mode, bs, ops>>

---- (* laws *)

RECURSIVE Ends(_, _)
\* positions where the tokens end, 0 behind an error
Ends(w, p) == LET r == Tok(w, p) IN
              IF r.st # "ok" THEN <<0>> ELSE IF r.n = 0 THEN <<>> ELSE <<p + r.n - 1>> \o Ends(w, p + r.n)

\* tokens make up the text; white space and words are as long as they can be;
\* a prefix of the text that ends with a token has the same tokens
TextLaws == mode \in {"text", "byte"} =>
  LET e == Ends(bs, 1) IN
  /\ \A i \in 1..Len(e) : e[i] > (IF i = 1 THEN 0 ELSE e[i - 1]) \/ (i = Len(e) /\ e[i] = 0)
  /\ (e # <<>> /\ e[Len(e)] # 0) => e[Len(e)] = Len(bs)
  /\ \A i \in 1..Len(e) : e[i] # 0 => LET f == Ends(SubSeq(bs, 1, e[i]), 1)
                                          t == Tok(bs, IF i = 1 THEN 1 ELSE e[i - 1] + 1).t
                                      IN  t # "linecomment" => f = SubSeq(e, 1, i)
  /\ \A i \in 1..Len(e) - 1 : e[i] # 0 =>
       ~(bs[e[i]] \in Spaces /\ At(bs, e[i] + 1) \in Spaces)
       \/ Tok(bs, IF i = 1 THEN 1 ELSE e[i - 1] + 1).t = "linecomment"

\* the text format's grammar of numbers, by splitting
GNum(w, S) == /\ w # <<>> /\ w[1] \in S /\ w[Len(w)] \in S
              /\ \A i \in 1..Len(w) : w[i] \in S \/ (w[i] = 95 /\ w[i - 1] # 95)
Sub(w, i, j) == SubSeq(w, i, j)
GExp(w) == GNum(w, Digits) \/ (w # <<>> /\ w[1] \in {43, 45} /\ GNum(Tail(w), Digits))
GFloat(u, S, E) ==
  \E i \in 1..Len(u) : GNum(Sub(u, 1, i), S) /\
    \E j \in i..Len(u) :
      /\ i = j \/ (u[i + 1] = 46 /\ (j = i + 1 \/ GNum(Sub(u, i + 2, j), S)))
      /\ j = Len(u) \/ (u[j + 1] \in E /\ GExp(Sub(u, j + 2, Len(u))))
GHex(u, P(_)) == Len(u) > 2 /\ u[1] = 48 /\ u[2] = 120 /\ P(SubSeq(u, 3, Len(u)))
WordLaws == (mode = "word" /\ bs # <<>>) =>
  LET u == Unsigned(bs) IN
  /\ IsInteger(bs) <=> GNum(u, Digits) \/ GHex(u, LAMBDA v : GNum(v, HexDigits))
  /\ IsFloat(bs) <=> GFloat(u, Digits, {69, 101}) \/ GHex(u, LAMBDA v : GFloat(v, HexDigits, {80, 112}))
  /\ IsInteger(bs) => IsFloat(bs)

Drain == <<[op |-> "drain", l |-> 1]>>
Out(t, o) == PrintT(ToJson([bs |-> t, ops |-> o]))
Emit == CASE mode \in {"text", "byte"} -> Len(bs) >= 1 => Out(bs, Drain)
          [] mode = "word" -> (Len(bs) >= 1 /\ (bs[1] \in Digits \/ IsFloat(bs))) => Out(bs, Drain)
          [] mode = "hist" -> Len(ops) = OpsLen =>
               Out(bs, ops \o [k \in 1..Lexers |-> [op |-> "drain", l |-> k]])
=============================================================================
