---------------------------- MODULE MC_WatParse ----------------------------
(* All token sequences that can still become a module, up to a length, inside
   of a few frames; and every one of them with one wrong token more.

   Law: the words of a text are exactly the words of its tree.               *)
EXTENDS WatTokens, TLC, Json
CONSTANTS MaxLen

InFunc == <<O, Mod, O, W("func")>>
Frames == [
  top    |-> [pre |-> <<>>, over |-> 0, al |-> {O, C, Mod, Comp, W("func"), Id}],
  module |-> [pre |-> <<O, Mod, O>>, over |-> 2,
              al |-> {O, C, Id, Zero, Minus, W("func"), W("type"), W("table"), W("memory"), W("global"), W("mut"), W("i32"), W("funcref"), W("elem")}],
  type   |-> [pre |-> <<O, Mod, O, W("type")>>, over |-> 4, al |-> {O, C, Id, W("func"), W("param"), W("result"), W("i32"), W("f64")}],
  func   |-> [pre |-> InFunc, over |-> 2,
              al |-> {O, C, Id, Quote, W("export"), W("import"), W("param"), W("result"), W("local"), W("i32"), W("i64"), W("drop")}],
  body   |-> [pre |-> InFunc, over |-> -1,
              al |-> {O, C, Id, Zero, Frac, W("i32.add"), W("local.get"), W("br_table"), W("f32.const"), W("i32.const"), W("block"), W("result"), W("f32")}],
  block  |-> [pre |-> InFunc \o <<O>>, over |-> 1,
              al |-> {O, C, Id, W("loop"), W("result"), W("i32"), W("call_indirect"), W("type"), W("select")}],
  if     |-> [pre |-> InFunc \o <<O, W("if")>>, over |-> 4, al |-> {O, C, Id, W("then"), W("else"), W("result"), W("i32"), W("return"), W("nop")}]]

VARIABLES frame, seq
Full(s) == Frames[frame].pre \o s
Result(s) == Wat(Append(Full(s), End), 1)
\* the end of the text is what is wrong with it
Viable(s) == LET r == Result(s) IN r.st = "err" /\ r.p = Len(Full(s)) + 1

Init == seq = <<>> /\ frame \in DOMAIN Frames
Next == /\ UNCHANGED frame
        /\ Len(seq) < MaxLen + Frames[frame].over
        /\ seq = <<>> \/ Viable(seq)
        /\ \E x \in Frames[frame].al : seq' = Append(seq, x)
Spec == Init /\ [][Next]_<<frame, seq>>

Whole == Closed(Full(seq))
Laws == LET r == Wat(Append(Whole, End), 1) IN
        (r.st = "ok" /\ ~r.loose) =>
          LET a == WordsOf(r.v[1])
              b == Written(SubSeq(Whole, 1, r.p - 1))
          IN  \* fields are collected by kind
              /\ Len(a) = Len(b)
              /\ \A i \in 1..Len(b) : Len(SelectSeq(a, LAMBDA x : x = b[i])) = Len(SelectSeq(b, LAMBDA x : x = b[i]))
              /\ Len(SelectSeq(r.v[1].c, LAMBDA x : x.c # <<>>)) < 2 => a = b

Emit == Whole # <<>> => PrintT(ToJson([kind |-> frame, t |-> [i \in 1..Len(Whole) |-> Whole[i].x]]))
=============================================================================
