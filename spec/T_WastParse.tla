----------------------------- MODULE T_WastParse ---------------------------
(* Judges recordings of parsing scripts: input [bs], observation [st, tree]. *)
EXTENDS WastParse, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Accept(e) ==
  LET T == Tokens(e.i.bs)
      r == Script(T, 1) IN
  IF e.o.st \notin {"ok", "err"} THEN FALSE
  ELSE IF T[Len(T)].t = "free" THEN TRUE
  ELSE IF r.st # "ok" THEN e.o.st = "err"
  ELSE IF e.o.st = "err" THEN r.loose
  ELSE Match(L("script", r.v), e.o.tree)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
