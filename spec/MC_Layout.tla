----------------------------- MODULE MC_Layout -----------------------------
(* Types grow step by step; the laws of layout and flattening hold for every
   type reached, and every type is handed to the implementation.             *)
EXTENDS Universe

CONSTANTS Depth, What       \* What is "layout" or "flat"
VARIABLES t, d

Base == {P(k) : k \in Scalars \cup {"string"}} \cup
        {Own(1), Borrow(2), RecordOf(<<>>), EnumOf(3), EnumOf(256), EnumOf(257), P("stream"), EnumOf(0), UnionOf(<<>>)}
        \cup {FlagsT(n) : n \in {0, 1, 8, 9, 16, 17, 32, 33, 64, 65}}
Partners == {P("u8"), P("u16"), P("u64"), P("f32"), P("f64"), P("string"), FlagsT(0), FlagsT(33), P("stream")}

Init == t \in Base /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ t' \in Grow1(t) \cup (IF d <= 1 THEN UNION {Grow2(t, b) : b \in Partners} ELSE {})
Spec == Init /\ [][Next]_<<t, d>>

RECURSIVE Offsets(_, _, _)
Offsets(ts, i, off) == IF i > Len(ts) THEN <<>>
  ELSE LET q == AlignTo(off, Align(ts[i])) IN <<q>> \o Offsets(ts, i + 1, q + Size(ts[i]))

LayoutLaws == HasLayout(t) =>
  LET v == Despec(t) a == Align(t) n == Size(t) IN
  /\ a \in {1, 2, 4, 8} /\ n >= 0 /\ n % a = 0
  /\ v.k = "record" =>          \* fields aligned, disjoint, in order, inside
       LET o == Offsets(v.ts, 1, 0) IN
       \A i \in 1..Len(o) :
         /\ o[i] % Align(v.ts[i]) = 0 /\ a % Align(v.ts[i]) = 0
         /\ o[i] + Size(v.ts[i]) <= IF i < Len(o) THEN o[i + 1] ELSE n
  /\ v.k = "variant" =>
       LET q == PayloadOffset(v) IN
       /\ DiscSize(NCases(v)) <= q
       /\ \A p \in Payloads(v) : q % Align(p) = 0 /\ q + Size(p) <= n /\ a % Align(p) = 0
       /\ LET lim == DiscSize(NCases(v)) IN lim = 4 \/ NCases(v) <= (IF lim = 1 THEN 256 ELSE 65536)

Kinds == {"i32", "i64", "f32", "f64"}
Bits(k) == IF k \in {"i32", "f32"} THEN 32 ELSE 64
FlatLaws == HasLayout(t) =>
  LET f == Flatten(t) v == Despec(t) IN
  /\ \A i \in 1..Len(f) : f[i] \in Kinds
  /\ v.k = "variant" => /\ f[1] = "i32"
                        /\ \A p \in Payloads(v) :
                             LET g == Flatten(p) IN
                             /\ Len(g) < Len(f)
                             /\ \A i \in 1..Len(g) : f[i + 1] = g[i] \/ (f[i + 1] \in {"i32", "i64"} /\ Bits(f[i + 1]) >= Bits(g[i]))
  /\ \A dir \in {"lift", "lower"} :
       LET c == CoreSig(<<t, t>>, <<t>>, dir, 4, 1)
       IN  Len(c.p) <= 5 /\ Len(c.r) <= 1 /\ (dir = "lift" => Len(c.p) <= 4)

ASSUME \A a, b, c \in Kinds : /\ Join(a, b) = Join(b, a) /\ Join(a, a) = a
                              /\ Bits(Join(a, b)) >= Bits(a)
                              /\ Join(Join(a, b), c) = Join(a, Join(b, c)) \/ {a, b, c} \cap {"f32", "f64"} # {}

Emit ==
  IF What = "layout" THEN Behaviour([op |-> "layout", t |-> t, impl |-> <<1, 2>>])
  ELSE /\ Behaviour([op |-> "flat", t |-> t, impl |-> <<1, 2>>])
       /\ Behaviour([op |-> "sig", ps |-> <<t, P("f64"), t>>, rs |-> <<t>>, dir |-> "lift", maxp |-> 4, maxr |-> 1, impl |-> <<1, 2>>])
       /\ Behaviour([op |-> "sig", ps |-> <<P("u64"), t>>, rs |-> <<t, P("f32")>>, dir |-> "lower", maxp |-> 16, maxr |-> 2, impl |-> <<1, 2>>])
=============================================================================
