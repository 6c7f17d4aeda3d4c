------------------------------ MODULE MC_Alloc -----------------------------
(* Lowering with an allocator that may refuse, return misaligned addresses or
   addresses outside memory, in every combination over the first requests.   *)
EXTENDS Universe

CONSTANT Faults          \* number of requests the adversary decides
VARIABLES t, j, gr, op

Heap == 32
MemSize == 224
Types == {P("string"), ListOf(P("u8")), ListOf(P("u64")), ListOf(P("string")), RecordOf(<<P("string"), P("string")>>),
          RecordOf(<<P("u8"), ListOf(P("u16"))>>), OptionOf(P("string")), ListOf(RecordOf(<<P("u8"), P("u32")>>)),
          ResultOf(<<ListOf(P("u32"))>>, <<P("string")>>), ListOf(ListOf(P("u8")))}
\* what the allocator answers: [m, p]
Good == [m |-> "bump", p |-> <<0, 0, 0, 0>>]
At(x) == [m |-> "at", p |-> x]
Answers == {Good, [m |-> "fail", p |-> <<0, 0, 0, 0>>], At(<<161, 0, 0, 0>>), At(<<162, 0, 0, 0>>), At(<<164, 0, 0, 0>>), At(<<160, 0, 0, 0>>),
            At(<<220, 0, 0, 0>>), At(<<216, 0, 0, 0>>), At(<<224, 0, 0, 0>>), At(<<248, 255, 255, 255>>), At(<<255, 255, 255, 255>>),
            At(<<0, 0, 0, 128>>), At(<<0, 0, 0, 64>>)}
Init == t \in Types /\ j \in 1..5 /\ gr = <<>> /\ op \in {"store", "lower"}
\* at most one answer at a fixed place keeps the blocks apart
Next == /\ Len(gr) < Faults
        /\ \E g \in Answers : /\ g.m = "at" => \A i \in 1..Len(gr) : gr[i].m # "at"
                              /\ gr' = Append(gr, g)
        /\ UNCHANGED <<t, j, op>>
Spec == Init /\ [][Next]_<<t, j, gr, op>>

\* the well-behaved allocator hands out blocks of 8 bytes from Heap upwards
R == [i \in 1..12 |->
        IF i <= Len(gr) /\ gr[i].m # "bump"
        THEN [a |-> -1, n |-> -1, o |-> 1, ok |-> IF gr[i].m = "fail" THEN 0 ELSE 1, p |-> gr[i].p]
        ELSE [a |-> -1, n |-> -1, o |-> 1, ok |-> 1, p |-> NatToBytes(Heap + 24 * ((i - 1) % 5), 4)]]
V == Sample(t, j)
S0 == Fresh(Pattern(MemSize), "utf-16", R)
End == IF op = "store" THEN Store(S0, 1, t, V, 8) ELSE Lower(S0, 1, t, V)[1]
Granted == {<<BytesToNat(R[i].p), 24>> : i \in {x \in 1..12 : R[x].ok = 1 /\ Small(R[x].p)}}
Unchanged(m1, m2, B) == \A x \in 1..Len(m1) : m1[x] = m2[x] \/ \E b \in B : b[1] < x /\ x <= b[1] + b[2]
Laws ==
  LET s == End IN
  /\ s.st \in {"ok", "err"}
  /\ Len(s.mem[1]) = MemSize
  /\ Unchanged(S0.mem[1], s.mem[1], Granted \cup (IF op = "store" THEN {<<8, Size(t)>>} ELSE {}))
  /\ (\A i \in 1..Len(gr) : gr[i].m = "bump") => s.st = "ok"
  /\ (\E i \in 1..Len(gr) : gr[i].m = "fail" /\ i < s.k) => s.st = "err"
Emit == Behaviour([op |-> op, t |-> t, v |-> V, p |-> <<8, 0, 0, 0>>, enc |-> "utf-16", mem |-> Pattern(MemSize),
                   heap |-> Heap, gr |-> gr, impl |-> <<1, 2>>])
=============================================================================
