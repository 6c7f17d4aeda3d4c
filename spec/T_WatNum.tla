------------------------------ MODULE T_WatNum -----------------------------
(* Judges recordings of numeric constants: input [w, lit], observation
   [st, o]: o are the [st, b] found by parsing the constant in a module and in
   a script.                                                                 *)
EXTENDS WatNum, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Accept(e) == IF e.o.st # "ok" THEN FALSE
             ELSE \A k \in 1..Len(e.o.o) : ConstOK(e.i.w, e.i.lit, e.o.o[k])
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
