------------------------------- MODULE T_Store -----------------------------
(* Judges recorded sequences of instantiations.
   input  [stores (number), mods, names, steps: sequence of [s, m]]
   observation [st, ev: one per step], each ev [ok (1/0), fs: the functions of
   every store, <<0, 0>> for one that cannot be told, ins: for every instance so
   far [a: its addresses, x: the address found under each name or -1]]       *)
EXTENDS Store, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

FuncsAre(fs, x) == Len(fs) = Len(x) /\ \A j \in 1..Len(fs) : x[j] \in {fs[j], <<0, 0>>}
SnapOK(S, i, e) ==
  /\ Len(e.fs) = i.stores /\ \A s \in 1..i.stores : FuncsAre(S.st[s], e.fs[s])
  /\ Len(e.ins) = Len(S.ins)
  /\ \A k \in 1..Len(S.ins) :
       /\ e.ins[k].a = Addresses(S, i.mods, k)
       /\ e.ins[k].x = [j \in 1..Len(i.names) |-> Lookup(S, i.mods, k, i.names[j])]
RECURSIVE Fold(_, _, _, _)
Fold(S, i, ev, j) ==
  IF j > Len(i.steps) THEN TRUE
  ELSE LET good == Instantiable(i.mods[i.steps[j].m])
           S2 == IF good THEN Instantiate(S, i.mods, i.steps[j].s, i.steps[j].m) ELSE S
       IN  /\ ev[j].ok = (IF good THEN 1 ELSE 0)
           /\ SnapOK(S2, i, ev[j])
           /\ Fold(S2, i, ev, j + 1)
Accept(e) == e.o.st = "ok" /\ Len(e.o.ev) = Len(e.i.steps) /\ Fold(State0(e.i.stores), e.i, e.o.ev, 1)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
