----------------------------- MODULE T_WitParse ----------------------------
(* Judges recordings of parsing WIT documents: input [bs], observation
   [st, tree].                                                               *)
EXTENDS WitParse, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Accept(e) ==
  LET T == Tokens(e.i.bs)
      r == Document(T) IN
  IF e.o.st \notin {"ok", "err"} THEN FALSE
  ELSE IF T[Len(T)].t = "free" THEN TRUE
  ELSE IF r.st # "ok" THEN e.o.st = "err"
  ELSE IF e.o.st = "err" THEN r.loose \/ OddName(T)
  ELSE L("document", r.v) = e.o.tree
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
