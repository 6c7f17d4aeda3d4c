---------------------------- MODULE MC_WitParse ----------------------------
(* All token sequences that can still become a WIT document, up to a length,
   inside of a few frames; and every one of them with one wrong token more.
   Each is completed to a whole document as far as that is possible with
   closing marks.

   Law: the words of a document are the words of its tree, in order.         *)
EXTENDS WitParse, TLC, Json
CONSTANTS MaxLen

\* the kinds of tokens of the frames and of their alphabets
Frames == [
  top       |-> [pre |-> <<>>, over |-> 1, al |-> {"package", "use", "interface", "world", "id", ":", ";", "{", "}", "/", "as", "@", "integer"}],
  version   |-> [pre |-> <<"package", "id", ":", "id">>, over |-> 5, al |-> {"@", "integer", ".", ";", "interface", "use", "id", "-"}],
  path      |-> [pre |-> <<"use", "id">>, over |-> 7, al |-> {":", "id", "/", "@", "integer", ".", "as", ";", "world"}],
  func      |-> [pre |-> <<"interface", "id", "{", "id">>, over |-> 4, al |-> {":", "func", "(", ")", "->", "id", "u8", ",", ";", "}", "static"}],
  lists     |-> [pre |-> <<"interface", "id", "{">>, over |-> 1, al |-> {"record", "flags", "variant", "enum", "id", "{", "}", ":", ",", "(", ")", "u8", ";"}],
  resource  |-> [pre |-> <<"interface", "id", "{", "resource", "id">>, over |-> 3, al |-> {"constructor", "static", "func", "id", ":", "(", ")", ";", "{", "}", "->", "u8"}],
  types     |-> [pre |-> <<"interface", "id", "{", "type">>, over |-> 0, al |-> {"list", "future", "result", "tuple", "own", "u8", "id", "<", ">", ",", "_", ";", "="}],
  pairs     |-> [pre |-> <<"interface", "id", "{", "type", "id", "=">>, over |-> 0, al |-> {"option", "stream", "borrow", "string", "id", "<", ">", ",", "_", ";", "}"}],
  uses      |-> [pre |-> <<"interface", "id", "{", "use">>, over |-> 5, al |-> {"id", ":", "/", ".", "{", "}", "as", ",", ";"}],
  world     |-> [pre |-> <<"world", "id", "{">>, over |-> 0, al |-> {"import", "export", "include", "use", "id", ":", "/", "func", "interface", "(", ")", "{", "}", ";", "type"}],
  include   |-> [pre |-> <<"world", "id", "{", "include">>, over |-> 5, al |-> {"id", ":", "/", "with", "{", "}", "as", ",", ";", "import"}],
  extern    |-> [pre |-> <<"world", "id", "{", "import", "id", ":", "interface">>, over |-> 3, al |-> {"{", "}", "id", ":", "func", "(", ")", ";", "flags", "export"}]]

RECURSIVE Digit10(_)
Digit10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digit10(n \div 10), 48 + (n % 10))
\* names and numbers tell where they stand
Token(t, i) == [t |-> t, s |-> IF t = "id" THEN "n" \o ToString(i) ELSE "", w |-> IF t = "integer" THEN Digit10(i) ELSE <<>>]
Tokened(s) == [i \in 1..Len(s) |-> Token(s[i], i)]
Ended2(s) == Append(Tokened(s), Token("eof", 0))

VARIABLES frame, seq
Full(s) == Frames[frame].pre \o s
ViableAt(full) == LET r == Document(Ended2(full)) IN r.st = "ok" \/ r.p = Len(full) + 1

Init == seq = <<>> /\ frame \in DOMAIN Frames
Next == /\ UNCHANGED frame
        /\ Len(seq) < MaxLen + Frames[frame].over
        /\ ViableAt(Full(seq))
        /\ \E x \in Frames[frame].al : seq' = Append(seq, x)
Spec == Init /\ [][Next]_<<frame, seq>>

Marks == <<">", ")", "}", ";", ":", "=", "func", "(", "{", ".", "id", "u8", "integer">>
RECURSIVE Complete(_, _)
\* with the first mark that fits, again and again
Complete(full, fuel) ==
  LET r == Document(Ended2(full)) IN
  IF fuel = 0 \/ r.st = "ok" \/ r.p # Len(full) + 1 THEN full
  ELSE LET fits == {i \in 1..Len(Marks) : ViableAt(Append(full, Marks[i]))}
       IN  IF fits = {} THEN full
           ELSE Complete(Append(full, Marks[CHOOSE i \in fits : \A j \in fits : i <= j]), fuel - 1)

---- (* words *)

RECURSIVE WordsOf(_, _), WordsAll(_, _)
WordsAll(c, in) == IF c = <<>> THEN <<>> ELSE WordsOf(Head(c), in) \o WordsAll(Tail(c), in)
WordsOf(n, in) ==
  CASE n.k \in {"method", "params", "results", "ok", "error", "element", "end", "version"} \/ (n.k = "result" /\ in = "func") -> WordsAll(n.c, n.k)
    [] n.k \in {"namespace", "name", "flag", "enumcase", "prim", "named"} -> <<n.s>>
    [] n.k \in {"usename", "rename", "function", "field", "param", "case"} -> <<n.s>> \o WordsAll(n.c, n.k)
    [] n.k = "static" \/ (n.k = "interface" /\ in \in {"export", "import"}) -> <<n.s, n.k>> \o WordsAll(n.c, n.k)
    [] n.k = "number" -> <<"#">>
    [] n.k = "package" -> <<"package">> \o WordsAll(n.c, n.k)
    [] n.k = "path" -> IF n.c = <<>> THEN <<n.s>>
                       ELSE LET w == WordsAll(n.c[1].c, "package") IN <<w[1], w[2], n.s>> \o SubSeq(w, 3, Len(w))
    [] n.k = "include" -> <<"include">> \o WordsOf(n.c[1], n.k) \o (IF Len(n.c) > 1 THEN <<"with">> ELSE <<>>) \o WordsAll(Tail(n.c), n.k)
    [] n.k = "alias" -> <<"type", n.s>> \o WordsAll(n.c, n.k)
    [] n.s = "" -> <<n.k>> \o WordsAll(n.c, n.k)
    [] OTHER -> <<n.k, n.s>> \o WordsAll(n.c, n.k)
Marked == {"{", "}", "(", ")", "<", ">", ",", ":", ";", "@", ".", "/", "->", "_", "="}
Written(T) == LET w == SelectSeq(T, LAMBDA x : x.t \notin Marked)
              IN  [i \in 1..Len(w) |-> CASE w[i].t = "integer" -> "#" [] w[i].t = "id" -> w[i].s [] OTHER -> w[i].t]

Behaviour(s) == PrintT(ToJson([kind |-> frame,
                               t |-> [i \in 1..Len(s) |-> CASE s[i] = "id" -> "n" \o ToString(i)
                                                            [] s[i] = "integer" -> ToString(i)
                                                            [] OTHER -> s[i]]]))
\* the wrong token, in a text that is whole without it or with another one
Misplaced(full) ==
  LET n == Len(full) - 1
      whole == Complete(SubSeq(full, 1, n), 14)
  IN  /\ Behaviour(full \o SubSeq(whole, n + 1, Len(whole)))
      /\ n < Len(whole) => Behaviour(full \o SubSeq(whole, n + 2, Len(whole)))

Laws == LET whole == Complete(Full(seq), 14)
            r == Document(Ended2(whole))
        IN  /\ (r.st = "ok" /\ ~r.loose) => WordsAll(r.v, "document") = Written(Tokened(whole))
            /\ Behaviour(whole)
            /\ (seq # <<>> /\ ~ViableAt(Full(seq))) => Misplaced(Full(seq))
=============================================================================
