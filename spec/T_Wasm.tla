------------------------------- MODULE T_Wasm ------------------------------
(* Judges recordings of decoding binaries.
   input  [bs, mode (how the reader splits), fail (-1, or the number of bytes
          after which the reader fails), once (it goes on afterwards)]
   observation [st |-> "module" / "component" / "err" / ..., m, extra (number of
          things in the result that no supported binary contains), kb (memory
          allocated)]                                                        *)
EXTENDS Wasm, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Same(o, m) == /\ o.st = "module" /\ o.extra = 0
              /\ o.m.types = m.types /\ o.m.exports = m.exports /\ o.m.funcs = m.funcs
\* declared locals are written out by the decoder
AllLocals(m) == FoldSeq(LAMBDA f, n : n + FoldSeq(LAMBDA r, k : k + r[2], 0, f.loc), 0, m.funcs)
Accept(e) ==
  LET i == e.i
      o == e.o
      d == DecodeWasm(i.bs)
  IN  /\ o.st \in {"module", "component", "err"}
      /\ o.kb <= 8192 + 64 * Len(i.bs) + (IF d.st = "module" THEN AllLocals(d.m) \div 8 ELSE 0)
      /\ IF i.fail >= 0 /\ d.st \in {"module", "any"} THEN o.st = "err"
         ELSE IF i.fail >= 0 /\ d.st = "component" THEN o.st \in {"err"} \cup (IF i.fail >= 8 THEN {"component"} ELSE {})
         ELSE IF d.st = "module" THEN Same(o, d.m)
         ELSE IF d.st = "any" THEN TRUE
         ELSE o.st = d.st

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
