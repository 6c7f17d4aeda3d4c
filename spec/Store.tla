------------------------------- MODULE Store -------------------------------
(* Instantiation of modules in stores.
   A module is [n, exps]: its number of functions and its exports <<name, index>>
   (the index as 4 bytes).  The state is [st, ins]: st[s] the functions of store
   s, each <<module, position>>, in the order of their addresses; ins[i] =
   [s, m, base] an instance, its store, module and first address.            *)
EXTENDS Bytes

State0(n) == [st |-> [s \in 1..n |-> <<>>], ins |-> <<>>]

Instantiable(mod) == \A j \in 1..Len(mod.exps) :
                       Small(mod.exps[j][2]) /\ BytesToNat(mod.exps[j][2]) < mod.n
Instantiate(S, mods, s, m) ==
  [S EXCEPT !.st[s] = @ \o [j \in 1..mods[m].n |-> <<m, j>>],
            !.ins = Append(@, [s |-> s, m |-> m, base |-> Len(S.st[s])])]

\* addresses count from 0
Addresses(S, mods, i) == [j \in 1..mods[S.ins[i].m].n |-> S.ins[i].base + j - 1]
\* the address exported under a name, -1 if there is none
Lookup(S, mods, i, name) ==
  LET ex == mods[S.ins[i].m].exps
      js == {j \in 1..Len(ex) : ex[j][1] = name}
  IN  IF js = {} THEN -1 ELSE S.ins[i].base + BytesToNat(ex[CHOOSE j \in js : TRUE][2])

\* ---- what must always be true ----
Disjoint(S, mods) == \A i, j \in 1..Len(S.ins) : i # j /\ S.ins[i].s = S.ins[j].s =>
  \A a \in 1..mods[S.ins[i].m].n : \A b \in 1..mods[S.ins[j].m].n :
     Addresses(S, mods, i)[a] # Addresses(S, mods, j)[b]
Denote(S, mods) == \A i \in 1..Len(S.ins) : \A a \in 1..mods[S.ins[i].m].n :
  S.st[S.ins[i].s][Addresses(S, mods, i)[a] + 1] = <<S.ins[i].m, a>>
=============================================================================
