------------------------------ MODULE T_WitLex -----------------------------
(* Judges recordings of the WIT lexer.                                       *)
EXTENDS WitLex, Json, IOUtils, TLC
H == INSTANCE LexHistory WITH TokAt <- Tok

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ H!Accept(Trace[l].i, Trace[l].o)
=============================================================================
