------------------------------ MODULE WatTokens ----------------------------
(* Tokens for models of parsing, and the words of trees.                     *)
EXTENDS WatParse

W(s)    == [t |-> "reserved", w |-> <<>>, s |-> s, e |-> 0, x |-> s]
O       == [t |-> "open", w |-> <<40>>, s |-> "(", e |-> 0, x |-> "("]
C       == [t |-> "close", w |-> <<41>>, s |-> ")", e |-> 0, x |-> ")"]
Id      == [t |-> "id", w |-> <<36, 120>>, s |-> "$x", e |-> 0, x |-> "$x"]
Zero    == [t |-> "integer", w |-> <<48>>, s |-> "", e |-> 0, x |-> "0"]
Minus   == [t |-> "integer", w |-> <<45, 49>>, s |-> "", e |-> 0, x |-> "-1"]
Frac    == [t |-> "float", w |-> <<49, 46, 53>>, s |-> "", e |-> 0, x |-> "1.5"]
Quote   == [t |-> "string", w |-> <<34, 97, 34>>, s |-> "", e |-> 0, x |-> "\"a\""]
Mod     == [t |-> "module", w |-> <<>>, s |-> "module", e |-> 0, x |-> "module"]
Comp    == [t |-> "component", w |-> <<>>, s |-> "component", e |-> 0, x |-> "component"]
End     == [t |-> "eof", w |-> <<>>, s |-> "", e |-> 0, x |-> ""]

RECURSIVE Depth(_)
Depth(s) == IF s = <<>> THEN 0
            ELSE Depth(SubSeq(s, 1, Len(s) - 1)) + (CASE s[Len(s)].t = "open" -> 1 [] s[Len(s)].t = "close" -> -1 [] OTHER -> 0)
Closed(s) == IF Depth(s) > 0 THEN s \o [i \in 1..Depth(s) |-> C] ELSE s

RECURSIVE WordsOf(_)
RECURSIVE WordsAll(_)
WordsAll(c) == IF c = <<>> THEN <<>> ELSE WordsOf(Head(c)) \o WordsAll(Tail(c))
IdOf(n) == IF n.s = "" THEN <<>> ELSE <<n.s>>
\* the words of a tree in the order of writing, # for numbers and ' for strings
WordsOf(n) ==
  CASE n.k \in {"funcs", "types", "tables", "globals", "memories", "exports", "imports", "params", "results", "locals", "body", "clause", "elems", "folded"} -> WordsAll(n.c)
    [] n.k \in {"valtype", "reftype", "const"} -> <<n.s>>
    [] n.k = "mut" -> <<"mut", n.s>>
    [] n.k = "name" -> <<"'">>
    [] n.k = "export" -> <<"export", "'">>
    [] n.k = "max" -> <<"#">>
    [] n.k = "limits" -> (IF n.b = <<0, 0, 0, 0>> THEN <<"#">> ELSE <<"?">>) \o WordsAll(n.c)
    [] n.k = "index" -> IF n.s = "" THEN <<"#">> ELSE <<n.s>>
    [] n.k = "inst" -> <<n.s>> \o (IF n.s = "call_indirect" THEN <<"type">> ELSE <<>>)
                       \o (IF n.s \in Consts THEN <<"#">> ELSE WordsAll(n.c))
    [] n.k = "table" -> <<"table">> \o IdOf(n) \o WordsAll(IF n.c[3].c = <<>> THEN n.c ELSE Tail(n.c))
    [] n.k = "quote" -> <<n.s, "quote", "'">>
    [] n.k = "invoke" -> <<"invoke">> \o IdOf(n) \o <<"'">> \o WordsAll(n.c)
    [] n.k \in {"assert_trap", "assert_invalid", "assert_malformed"} -> <<n.k>> \o WordsAll(n.c) \o <<"'">>
    [] n.k = "expected" -> WordsAll(n.c)
    [] n.k = "type" -> <<"type">> \o IdOf(n) \o <<"func">> \o WordsAll(n.c)
    [] OTHER -> <<n.k>> \o IdOf(n) \o WordsAll(n.c)
Written(s) == LET w == SelectSeq(s, LAMBDA x : x.t \notin {"open", "close"})
              IN  [i \in 1..Len(w) |-> IF w[i].t \in {"integer", "float"} THEN "#" ELSE IF w[i].t = "string" THEN "'" ELSE w[i].s]
=============================================================================
