------------------------------ MODULE MC_Codec -----------------------------
(* A converter that takes its input in pieces: bytes arrive, whole characters
   leave, and the end or damage stops it.  All byte strings over a few bytes,
   all ways of cutting them.

   Laws: what has left is the conversion of the characters that arrived, no
   matter how; it ends well exactly for undamaged text; and what the machine
   does is what Allowed allows.                                              *)
EXTENDS Codec, TLC, Json

CONSTANTS ByteLen, Codecs
VARIABLES op, enc, bs, arrived, pos, out, cuts, st
vars == <<op, enc, bs, arrived, pos, out, cuts, st>>

Octets == {0, 65, 128, 160, 195, 216, 220, 224, 240}
Strings == UNION {[1..n -> Octets] : n \in 0..ByteLen}

Init == /\ op \in {"enc", "dec"} /\ enc \in Codecs /\ bs \in Strings
        /\ arrived = 0 /\ pos = 0 /\ out = <<>> /\ cuts = <<>> /\ st = "run"
\* k bytes arrive and all that is whole leaves
RECURSIVE Steps(_, _)
Steps(s, upto) ==
  IF s.pos >= upto \/ s.st # "run" THEN s
  ELSE LET r == CharAt(From(op, enc), SubSeq(bs, 1, upto), s.pos + 1) IN
       IF r.st = "more" THEN s
       ELSE IF r.st = "bad" \/ ~CanEncode(To(op, enc), <<r.c>>) THEN [s EXCEPT !.st = "err"]
       ELSE Steps([s EXCEPT !.pos = @ + r.n, !.out = @ \o Encode(To(op, enc), <<r.c>>)], upto)
Arrive == /\ st = "run" /\ arrived < Len(bs)
          /\ \E k \in 1..(Len(bs) - arrived) :
               LET s == Steps([pos |-> pos, out |-> out, st |-> st], arrived + k)
               IN  /\ arrived' = arrived + k /\ cuts' = Append(cuts, k)
                   /\ pos' = s.pos /\ out' = s.out /\ st' = s.st
          /\ UNCHANGED <<op, enc, bs>>
End == /\ st = "run" /\ arrived = Len(bs)
       /\ st' = IF pos = arrived THEN "ok" ELSE "err"
       /\ UNCHANGED <<op, enc, bs, arrived, pos, out, cuts>>
Next == Arrive \/ End
Spec == Init /\ [][Next]_vars

Laws ==
  LET t == TextOf(From(op, enc), SubSeq(bs, 1, pos))
      all == TextOf(From(op, enc), bs) IN
  /\ Whole(t) /\ out = Encode(To(op, enc), t)
  /\ st = "ok" <=> (st # "run" /\ Whole(all) /\ CanEncode(To(op, enc), all))
  /\ st # "run" => Allowed(op, enc, bs, FALSE, -1, st, out)
  /\ st = "ok" => TextOf(To(op, enc), out) = all
  /\ Whole(all) <=> Decode(From(op, enc), bs) # NoText

Emit == st # "run" => PrintT(ToJson([op |-> op, enc |-> enc, bs |-> bs, cuts |-> cuts]))
=============================================================================
