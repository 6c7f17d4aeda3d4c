---------------------------- MODULE MC_WastParse ---------------------------
(* All token sequences that can still become a script, up to a length, inside
   of a few frames; and every one of them with one wrong token more.

   Law: the words of a script are the words of its directives, in order.     *)
EXTENDS WastParse, TLC, Json
K == INSTANCE WatTokens
CONSTANTS MaxLen

O == K!O
C == K!C
W(s) == K!W(s)
Arg == <<O, W("i32.const"), K!Zero, C>>
Frames == [
  top     |-> [pre |-> <<>>, over |-> 0,
               al |-> {O, C, K!Mod, K!Comp, K!Quote, W("quote"), W("assert_return"), W("assert_trap"), W("assert_malformed"), W("invoke"), W("func")}],
  second  |-> [pre |-> <<O, K!Comp, W("quote"), K!Quote, C>>, over |-> 0, al |-> {O, C, K!Mod, K!Comp, K!Quote, W("quote"), W("func"), W("memory"), K!Zero}],
  invoke  |-> [pre |-> <<O, W("assert_return"), O, W("invoke")>>, over |-> 2,
               al |-> {O, C, K!Id, K!Quote, W("i32.const"), W("f64.const"), K!Zero, K!Frac, W("get"), W("ref.null")}],
  result  |-> [pre |-> <<O, W("assert_return"), O, W("invoke"), K!Quote>> \o Arg \o <<C>>, over |-> 2,
               al |-> {O, C, K!Quote, W("i64.const"), W("f32.const"), W("i32.add"), K!Minus, K!Frac}],
  trap    |-> [pre |-> <<O, W("assert_trap"), O>>, over |-> 2, al |-> {O, C, K!Id, K!Quote, W("invoke"), W("get"), W("i32.const"), K!Zero, K!Mod}],
  invalid |-> [pre |-> <<O, W("assert_invalid"), O>>, over |-> 2, al |-> {O, C, K!Mod, K!Comp, K!Quote, W("quote"), W("func"), W("drop"), W("invoke")}]]

VARIABLES frame, seq
Full(s) == Frames[frame].pre \o s
Result(s) == Script(Append(Full(s), K!End), 1)
Viable(s) == LET r == Result(s) IN r.st = "ok" \/ r.p = Len(Full(s)) + 1

Init == seq = <<>> /\ frame \in DOMAIN Frames
Next == /\ UNCHANGED frame
        /\ Len(seq) < MaxLen + Frames[frame].over
        /\ Viable(seq)
        /\ \E x \in Frames[frame].al : seq' = Append(seq, x)
Spec == Init /\ [][Next]_<<frame, seq>>

Whole == K!Closed(Full(seq))
Laws == LET r == Script(Append(Whole, K!End), 1) IN
        (r.st = "ok" /\ ~r.loose) => LET a == K!WordsAll(r.v)
                                         b == K!Written(Whole)
                                     IN  /\ Len(a) = Len(b)
                                         /\ frame # "second" => a = b

Emit == PrintT(ToJson([kind |-> frame, t |-> [i \in 1..Len(Whole) |-> Whole[i].x]]))
=============================================================================
