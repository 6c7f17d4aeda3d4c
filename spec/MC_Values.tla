----------------------------- MODULE MC_Values -----------------------------
(* Values of small types written to memory or lowered to core values come back
   as themselves, and nothing but their own bytes changes.                   *)
EXTENDS Universe

CONSTANTS Depth, Samples, What       \* What is "store" or "lower"
VARIABLES t, d, j, enc

Base == {P(k) : k \in Scalars \cup {"string"}} \cup {RecordOf(<<>>), EnumOf(3), EnumOf(257), FlagsT(0), FlagsT(9), FlagsT(33), FlagsT(65)}
Partners == {P("u8"), P("u16"), P("u32"), P("u64"), P("f32"), P("f64"), P("string")}
Handles2 == {Own(1), Borrow(1), Own(2), Borrow(2), RecordOf(<<Own(2), Borrow(2)>>), OptionOf(Own(1)), ListOf(Borrow(2))}

Init == /\ t \in Base \cup Handles2 /\ d = 0 /\ j \in 1..Samples
        /\ enc \in IF t.k = "string" THEN {"utf-8", "utf-16", "latin1+utf16"} ELSE {"utf-16"}
Next == /\ d < Depth /\ d' = d + 1 /\ UNCHANGED <<j, enc>> /\ t \notin Handles2
        /\ t' \in Grow1(t) \cup (IF d = 0 THEN UNION {Grow2(t, b) : b \in Partners} ELSE {})
Spec == Init /\ [][Next]_<<t, d, j, enc>>

Heap == 128
MemSize == 1152
At == 8
Grants == [i \in 1..14 |-> [a |-> -1, n |-> -1, o |-> 1, ok |-> 1, p |-> NatToBytes(Heap + 64 * i, 4)]]
S0 == Fresh(Pattern(MemSize), enc, Grants)
V == Sample(t, j)
Unchanged(m1, m2, B) == \A x \in 1..Len(m1) : m1[x] = m2[x] \/ \E b \in B : b[1] < x /\ x <= b[1] + b[2]
Blocks(s) == {<<Heap + 64 * i, 64>> : i \in 1..(s.k - 1)}

RECURSIVE NoHandles(_)
NoHandles(t0) == LET x == Despec(t0) IN
  CASE x.k \in {"own", "borrow"} -> FALSE
    [] x.k = "list" -> NoHandles(x.e)
    [] x.k = "record" -> \A i \in 1..Len(x.ts) : NoHandles(x.ts[i])
    [] x.k = "variant" -> \A p \in Payloads(x) : NoHandles(p)
    [] OTHER -> TRUE

StoreLoad ==
  LET s == Store(S0, 1, t, V, At)
      r == Load(s, 1, t, At)
  IN  /\ Size(t) <= Heap - At
      /\ WellTyped(t, V) /\ s.st = "ok"
      /\ Unchanged(S0.mem[1], s.mem[1], Blocks(s) \cup {<<At, Size(t)>>})
      /\ TablesOK(s) /\ BorrowCountsOK(s)
      /\ NoHandles(t) => r[1].st = "ok" /\ r[2] = Norm(t, V) /\ r[1].mem = s.mem /\ WellTyped(t, r[2])
LowerLift ==
  LET l == Lower(S0, 1, t, V)
      r == Lift(l[1], 1, t, l[2])
  IN  /\ l[1].st = "ok"
      /\ Len(l[2]) = Len(Flatten(t)) /\ KindsMatch(l[2], Flatten(t))
      /\ \A i \in 1..Len(l[2]) : Len(l[2][i][2]) = IF l[2][i][1] \in {"i32", "f32"} THEN 4 ELSE 8
      /\ Unchanged(S0.mem[1], l[1].mem[1], Blocks(l[1]))
      /\ NoHandles(t) => r[1].st = "ok" /\ r[2] = Norm(t, V)

\* storing what was lifted flat gives the same bytes as storing the value
Agree == NoHandles(t) =>
  LET l == Lower(S0, 1, t, V)
      r == Lift(l[1], 1, t, l[2])
      s1 == Store(S0, 1, t, V, At)
      s2 == Store(S0, 1, t, r[2], At)
  IN  s1.mem = s2.mem

Emit == IF What = "store"
  THEN Behaviour([op |-> "store", t |-> t, v |-> V, p |-> NatToBytes(At, 4), enc |-> enc,
                  mem |-> Pattern(340), heap |-> Heap, impl |-> <<1, 2>>])
  ELSE Behaviour([op |-> "lower", t |-> t, v |-> V, enc |-> enc, mem |-> Pattern(240), heap |-> 5, impl |-> <<1, 2>>])
=============================================================================
