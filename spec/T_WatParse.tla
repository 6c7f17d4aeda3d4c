----------------------------- MODULE T_WatParse ----------------------------
(* Judges recordings of parsing text modules: input [bs], observation
   [st, tree, rest]; rest is the offset of the next token of the lexer, -1 if
   there is none.                                                            *)
EXTENDS WatParse, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Accept(e) ==
  LET T == Tokens(e.i.bs)
      r == Wat(T, 1) IN
  IF e.o.st \notin {"ok", "err"} THEN FALSE
  ELSE IF T[Len(T)].t = "free" THEN TRUE
  ELSE IF r.st # "ok" THEN e.o.st = "err"
  ELSE IF e.o.st = "err" THEN r.loose
  ELSE /\ Match(r.v[1], e.o.tree)
       /\ LET end == T[r.p - 1].e
          IN  Tok(e.i.bs, end + 1).st = "ok" => e.o.rest = end
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
