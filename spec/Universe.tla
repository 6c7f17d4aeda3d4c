------------------------------ MODULE Universe -----------------------------
(* Small universes of types and values for the models of the Canonical ABI,
   and the form in which the models hand behaviours to the implementation.   *)
EXTENDS ABIMem, Json, TLC

P(k) == [k |-> k]
ListOf(a) == [k |-> "list", e |-> a]
OptionOf(a) == [k |-> "option", e |-> a]
RecordOf(ts) == [k |-> "record", ts |-> ts]
UnionOf(ts) == [k |-> "union", ts |-> ts]
ResultOf(a, b) == [k |-> "result", a |-> a, b |-> b]
VariantOf(cs, pad) == [k |-> "variant", cs |-> cs, pad |-> pad]
FlagsT(n) == [k |-> "flags", n |-> n]
EnumOf(n) == [k |-> "enum", n |-> n]
Own(r) == [k |-> "own", rt |-> r]
Borrow(r) == [k |-> "borrow", rt |-> r]

\* types made from one and from two types
Grow1(a) == {ListOf(a), OptionOf(a), RecordOf(<<a>>), [k |-> "tuple", ts |-> <<a, a>>], UnionOf(<<a>>),
             ResultOf(<<a>>, <<>>), ResultOf(<<>>, <<a>>), VariantOf(<<Case(0, <<a>>)>>, 1),
             VariantOf(<<Case(0, <<a>>)>>, 255), VariantOf(<<Case(0, <<a>>)>>, 256)}
Grow2(a, b) == {RecordOf(<<a, b>>), RecordOf(<<b, a>>), RecordOf(<<b, a, b>>), UnionOf(<<a, b>>),
                ResultOf(<<a>>, <<b>>), ResultOf(<<b>>, <<a>>),
                VariantOf(<<Case(0, <<a>>), Case(1, <<>>), Case(2, <<b>>)>>, 0)}

Pick(xs, j) == xs[((j - 1) % Len(xs)) + 1]
Small16 == << <<0, 0>>, <<1, 0>>, <<254, 255>> >>
\* the j-th sample value of a type
RECURSIVE Sample(_, _)
Sample(t0, j) ==
  LET t == Despec(t0) IN
  CASE t.k = "bool" -> Leaf(<<j % 2>>)
    [] t.k \in {"u8", "s8"} -> Leaf(<<Pick(<<0, 127, 128, 255>>, j)>>)
    [] t.k \in {"u16", "s16"} -> Leaf(Pick(<< <<1, 2>>, <<255, 127>>, <<0, 128>> >>, j))
    [] t.k \in {"u32", "s32"} -> Leaf(Pick(<< <<1, 2, 3, 4>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>> >>, j))
    [] t.k \in {"u64", "s64"} -> Leaf(Pick(<< <<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 0, 0, 0, 0, 0, 0, 128>>,
                                              <<255, 255, 255, 255, 0, 0, 0, 0>> >>, j))
    [] t.k = "f32" -> Leaf(Pick(<< <<0, 0, 128, 63>>, <<1, 0, 160, 127>>, <<0, 0, 0, 128>>, <<0, 0, 128, 255>> >>, j))
    [] t.k = "f64" -> Leaf(Pick(<< <<0, 0, 0, 0, 0, 0, 240, 63>>, <<1, 0, 0, 0, 0, 0, 244, 255>>,
                                   <<0, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 0, 0, 240, 127>> >>, j))
    [] t.k = "char" -> Leaf(<<Pick(<<65, 55295, 57344, 1114111>>, j)>>)
    [] t.k = "string" -> Leaf(Pick(<< <<>>, <<104, 233>>, <<8364, 128512>>, <<255>>, <<256>> >>, j))
    [] t.k = "list" -> << <<>>, [i \in 1..Pick(<<2, 0, 1>>, j) |-> Sample(t.e, i + j)]>>
    [] t.k = "record" -> << <<>>, [i \in 1..Len(t.ts) |-> Sample(t.ts[i], i + j)]>>
    [] t.k = "variant" ->
         LET i == Pick(<<0, NCases(t) - 1, NCases(t) \div 2, 1>>, j)
             n == IF i < NCases(t) THEN i ELSE 0
             cs == CaseAt(t, n)
         IN  << <<cs.l>>, IF cs.t = <<>> THEN <<>> ELSE <<Sample(cs.t[1], j)>> >>
    [] t.k = "flags" -> Leaf([i \in 1..t.n |-> IF (i + j) % 3 = 0 \/ i = t.n THEN 1 ELSE 0])
    [] t.k \in {"own", "borrow"} -> Leaf(<<j, 1, 0, 0>>)

\* a memory whose every byte tells where it is
Pattern(n) == [i \in 1..n |-> (7 * i + 3) % 256]

Fresh(mem, enc, R) ==
  [st |-> "ok", mem |-> <<mem, <<>>>>, R |-> R, k |-> 1,
   ins |-> [i \in 1..2 |-> [me |-> 1, ml |-> 1, h |-> <<EmptyTable, EmptyTable>>]],
   ctx |-> <<NewCtx(1, enc)>>, rts |-> <<1, 2>>, dt |-> <<>>]

\* a behaviour for the implementation
Behaviour(r) == PrintT(ToJson(r))
=============================================================================
