------------------------------- MODULE MC_Leb ------------------------------
(* Byte strings and integers at the edges of the LEB128 format.              *)
EXTENDS Leb, Json, TLC

CONSTANTS ByteLen, Wide
VARIABLES bs, mode

Octets == {0, 1, 15, 16, 127, 128, 143, 144, 255} \cup (IF Wide THEN {2, 64, 129, 192} ELSE {})
Edges  == {0, 1, 127, 128, 255} \cup (IF Wide THEN {15, 16, 31, 32, 63, 64} ELSE {16})

Init == bs = <<>> /\ mode \in {"bytes", "int"}
Next == /\ UNCHANGED mode
        /\ \/ mode = "bytes" /\ Len(bs) < ByteLen /\ \E b \in Octets : bs' = Append(bs, b)
           \/ mode = "int" /\ Len(bs) < 4 /\ \E b \in Edges : bs' = Append(bs, b)
Spec == Init /\ [][Next]_<<bs, mode>>

\* the encoding is the shortest one and every longer one decodes to the same
IntLaws == mode = "int" /\ Len(bs) = 4 =>
  /\ OfGroups(Groups(bs)) = bs
  /\ \A n \in MinLen(bs)..5 : LET r == LebAt(LebN(bs, n) \o <<7>>, 1)
                              IN  r.st = "ok" /\ r.v = bs /\ r.n = n
  /\ MinLen(bs) > 1 => Groups(bs)[MinLen(bs)] # 0
\* what decodes is an encoding; what does not can not be completed if it is
\* too big, and can if it is only cut
ByteLaws == mode = "bytes" =>
  LET r == LebAt(bs, 1) IN
  /\ r.st = "ok" => SubSeq(bs, 1, r.n) = LebN(r.v, r.n) /\ r.n >= MinLen(r.v)
  /\ r.st = "eof" => Len(bs) < 5 /\ LebAt(bs \o <<0>>, 1).st = "ok"
  /\ r.st = "big" => Len(bs) >= 5 /\ \A b \in Octets : LebAt(Append(bs, b), 1).st = "big"

Emit == IF mode = "int" THEN Len(bs) = 4 => PrintT(ToJson([op |-> "enc", v |-> bs]))
        ELSE \* at most one byte behind the integer
             (LebAt(bs, 1).st # "ok" \/ LebAt(bs, 1).n >= Len(bs) - 1) => PrintT(ToJson([op |-> "dec", bs |-> bs]))
=============================================================================
