------------------------------ MODULE MC_Store -----------------------------
(* All short sequences of instantiations of a few modules in two stores.     *)
EXTENDS Store, Json, TLC

CONSTANT MaxLen
VARIABLES S, h

Ix(n) == NatToBytes(n, 4)
Mods == << [n |-> 0, exps |-> <<>>],
           [n |-> 1, exps |-> << <<"a", Ix(0)>> >>],
           [n |-> 3, exps |-> << <<"b", Ix(2)>>, <<"a", Ix(0)>>, <<"", Ix(1)>> >>],
           [n |-> 2, exps |-> << <<"a", Ix(1)>>, <<"c", Ix(2)>> >>],
           [n |-> 0, exps |-> << <<"a", Ix(0)>> >>],
           [n |-> 1, exps |-> << <<"d", Ix(0)>>, <<"c", <<255, 255, 255, 255>> >> >>],
           [n |-> 2, exps |-> << <<"e", Ix(1)>>, <<"f", Ix(1)>> >>] >>
Names == <<"a", "b", "c", "", "A", "e", "f">>

Init == S = State0(2) /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E s \in 1..2 : \E m \in 1..Len(Mods) :
             /\ h' = Append(h, [s |-> s, m |-> m])
             /\ S' = IF Instantiable(Mods[m]) THEN Instantiate(S, Mods, s, m) ELSE S
Spec == Init /\ [][Next]_<<S, h>>

Laws == Disjoint(S, Mods) /\ Denote(S, Mods)
\* nothing that was there changes
Grows == [][\A s \in 1..2 : IsPrefix(S.st[s], S'.st[s])]_<<S, h>>

Emit == Len(h) = MaxLen => PrintT(ToJson([stores |-> 2, mods |-> Mods, names |-> Names, steps |-> h]))
=============================================================================
