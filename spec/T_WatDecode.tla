---------------------------- MODULE T_WatDecode ----------------------------
(* Judges recordings of decoding text that arrives from a reader: input
   [bs, mode, broken, ...], observation [st, k].  How it arrives is of no
   consequence, except that a reader that fails makes the decoding fail.  What
   follows the module may be refused or not be looked at.                    *)
EXTENDS WatParse, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Accept(e) ==
  LET T == Tokens(e.i.bs)
      r == Wat(T, 1) IN
  IF e.o.st \notin {"ok", "err"} THEN FALSE
  ELSE IF e.i.broken THEN e.o.st = "err"
  ELSE IF T[Len(T)].t = "free" THEN TRUE
  ELSE IF r.st # "ok" THEN e.o.st = "err"
  ELSE IF e.o.st = "err" THEN r.loose \/ T[r.p].t # "eof"
  ELSE e.o.k = r.v[1].k
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
