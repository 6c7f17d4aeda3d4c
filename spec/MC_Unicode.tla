----------------------------- MODULE MC_Unicode ----------------------------
(* Strings over a few scalar values at the edges of the encodings, and byte
   strings over a few bytes at the edges of well-formedness.                 *)
EXTENDS Universe

CONSTANTS StrLen, ByteLen
VARIABLES s, bs, mode

Chars == {0, 65, 127, 128, 255, 256, 2047, 2048, 55295, 57344, 65279, 65535, 65536, 1114111}
Octets == {0, 65, 128, 143, 144, 159, 160, 191, 192, 194, 216, 220, 224, 237, 240, 244, 245, 255}
Encs == {"utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin1", "latin1+utf16"}

Init == s = <<>> /\ bs = <<>> /\ mode \in {"text", "bytes"}
Next == \/ mode = "text" /\ Len(s) < StrLen /\ \E c \in Chars : s' = Append(s, c) /\ UNCHANGED <<bs, mode>>
        \/ mode = "bytes" /\ Len(bs) < ByteLen /\ \E b \in Octets : bs' = Append(bs, b) /\ UNCHANGED <<s, mode>>
Spec == Init /\ [][Next]_<<s, bs, mode>>

TextLaws == mode = "text" => \A e \in Encs :
  CanEncode(e, s) => /\ Decode(e, Encode(e, s)) = s
                     /\ Len(Encode(e, s)) % UnitSize(e) = 0
                     /\ \A i \in 1..Len(Encode(e, s)) : Encode(e, s)[i] \in 0..255
\* what decodes is text, and is the only text with this encoding
ByteLaws == mode = "bytes" => \A e \in Encs :
  LET d == Decode(e, bs) IN
  d # NoText => /\ \A i \in 1..Len(d) : Scalar(d[i])
                /\ CanEncode(e, d) /\ Encode(e, d) = bs

LiftOf(e, tag) ==
  LET n == Len(bs) \div (IF tag = 128 THEN 2 ELSE UnitSize(e))
  IN  [op |-> "lift", t |-> P("string"), enc |-> e, mem |-> bs,
       f |-> << <<"i32", <<0, 0, 0, 0>> >>, <<"i32", <<n, 0, 0, tag>> >> >>]
Emit ==
  IF mode = "text"
  THEN \A e \in Encs : /\ Behaviour([op |-> "encode", enc |-> e, str |-> s, maxp |-> Len(s)])
                       /\ Behaviour([op |-> "lower", t |-> P("string"), v |-> <<s, <<>>>>, enc |-> e,
                                     mem |-> Pattern(24), heap |-> 3])
  ELSE /\ Behaviour(LiftOf("utf-8", 0))
       /\ Len(bs) % 2 = 0 => Behaviour(LiftOf("utf-16", 0)) /\ Behaviour(LiftOf("latin1+utf16", 128))
                             /\ Behaviour(LiftOf("utf-16-be", 0))
       /\ Len(bs) <= 2 => Behaviour(LiftOf("latin1+utf16", 0)) /\ Behaviour(LiftOf("latin1", 0))
=============================================================================
