---------------------------- MODULE T_CoreValues ---------------------------
(* Judges recordings of taking core values from iterators and views of them.
   input  [vals, views, ops: sequence of [v, want]], or zero: a kind
   observation [st, ev: one for each operation up to the first that failed],
   each ev [ok (1/0), k, b, idx, len]: the value, and the index and length that
   each source tells afterwards; or for zero one ev                          *)
EXTENDS CoreValues, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Judge(_, _, _, _)
Judge(i, ev, taken, j) ==
  IF j > Len(i.ops) THEN Len(ev) = Len(i.ops)
  ELSE LET r == Take(i.vals, i.views, taken, i.ops[j].v, i.ops[j].want) IN
       IF r.st = "free" THEN TRUE
       ELSE /\ Len(ev) >= j
            /\ \A s \in 1..Len(ev[j].len) : ev[j].len[s] = Len(i.vals)
            /\ IF r.st = "err" THEN ev[j].ok = 0 /\ Len(ev) = j
               ELSE /\ ev[j].ok = 1 /\ ev[j].k = r.x.k /\ ev[j].b = r.x.b
                    /\ \A s \in 1..Len(ev[j].idx) : ev[j].idx[s] = Index(r.taken)
                    /\ Judge(i, ev, r.taken, j + 1)
Zero(i, ev) == /\ Len(ev) = 1
               /\ IF i.zero \in Kinds
                  THEN ev[1].ok = 1 /\ ev[1].k = i.zero /\ ev[1].b = ZeroOf(i.zero).b
                  ELSE ev[1].ok = 0
Accept(e) ==
  IF e.o.st # "ok" THEN FALSE
  ELSE IF e.i.zero # "" THEN Zero(e.i, e.o.ev)
  ELSE Judge(e.i, e.o.ev, Fresh(e.i.views), 1)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
