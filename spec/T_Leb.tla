------------------------------- MODULE T_Leb -------------------------------
(* Judges recordings of the LEB128 encoder and decoders.
   input  [op |-> "enc", v, room]                    observation [st, bs, n]
          [op |-> "dec", w (which decoder), bs, mode, break]     [st, v, n, used]
   room is the number of bytes that can be written, -1 if any; with break the
   reader fails behind the bytes instead of telling that there are no more.
   used is the number of bytes the decoder took from its input, -1 if the
   decoder does not consume a reader.                                        *)
EXTENDS Leb, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

EncOK(i, o) ==
  IF i.room >= 0 /\ i.room < MinLen(i.v) THEN o.st = "err"
  ELSE IF i.room >= 0 THEN o.st = "ok" => o.n = MinLen(i.v)
  ELSE o.st = "ok" /\ o.bs = Leb(i.v) /\ o.n = MinLen(i.v)
DecOK(i, o) ==
  LET r == LebAt(i.bs, 1) IN
  IF r.st = "ok" THEN o.st = "ok" /\ o.v = r.v /\ o.n = r.n /\ o.used \in {-1, r.n}
  ELSE o.st = "err"
Accept(e) == IF e.i.op = "enc" THEN EncOK(e.i, e.o) ELSE DecOK(e.i, e.o)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
