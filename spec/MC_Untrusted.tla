---------------------------- MODULE MC_Untrusted ---------------------------
(* Lifting from a small memory with arbitrary contents and from arbitrary
   addresses, lengths and handle numbers: either a trap or a well-typed value
   that came from inside the memory, never anything else.                    *)
EXTENDS Universe

CONSTANTS Cells, Contents
VARIABLES t, m, a, n, mode

Types == {P("bool"), P("char"), P("u8"), P("u16"), EnumOf(2), FlagsT(3), OptionOf(P("u8")), OptionOf(P("char")),
          ResultOf(<<P("u8")>>, <<P("u16")>>), RecordOf(<<P("u8"), P("bool")>>), UnionOf(<<P("char"), P("u8")>>),
          Own(1), Borrow(1), Borrow(2), RecordOf(<<Own(1), Own(1)>>), RecordOf(<<Borrow(1), Own(1)>>)}
Arrays == {P("string"), ListOf(P("u8")), ListOf(P("u16")), ListOf(P("u64")), ListOf(P("char")), ListOf(Own(1)),
           ListOf(RecordOf(<<P("u8"), P("u16"), P("u8")>>)), ListOf(ListOf(P("u8")))}
Num(x) == NatToBytes(x, 4)
Addresses == {Num(x) : x \in 0..(Cells + 1)} \cup
             {<<0, 0, 0, 128>>, <<252, 255, 255, 255>>, <<254, 255, 255, 255>>, <<255, 255, 255, 255>>, <<0, 0, 0, 64>>, <<255, 255, 255, 127>>}
Lengths == {Num(x) : x \in 0..(Cells + 1)} \cup
           {<<0, 0, 0, 16>>, <<0, 0, 0, 32>>, <<0, 0, 0, 64>>, <<1, 0, 0, 64>>, <<255, 255, 255, 127>>, <<86, 85, 85, 21>>, <<86, 85, 85, 85>>, <<0, 0, 0, 128>>, <<1, 0, 0, 128>>}
Handle1 == {Num(x) : x \in 0..3} \cup {<<255, 255, 255, 255>>, <<0, 0, 0, 128>>}

\* numbers at the edges of integers, characters, cases and flags
EdgeNumbers == {Num(x) : x \in {0, 1, 2, 3, 4, 7, 8, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 55295, 55296, 57343, 57344,
                                 1114111, 1114112, 1114113}} \cup
               {<<0, 0, 0, 1>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<1, 0, 0, 128>>, <<255, 255, 255, 255>>, <<65, 0, 0, 128>>, <<0, 1, 255, 255>>}
Singles == {P(k) : k \in {"bool", "u8", "u16", "u32", "s8", "s16", "s32", "char"}} \cup
           {EnumOf(1), EnumOf(2), EnumOf(3), EnumOf(255), EnumOf(256), EnumOf(257), FlagsT(1), FlagsT(3), FlagsT(8), FlagsT(9), FlagsT(32)}
Pairs2 == {OptionOf(P("char")), OptionOf(P("u8")), OptionOf(P("s16")), OptionOf(EnumOf(3)), UnionOf(<<P("char"), P("u8")>>),
             ResultOf(<<P("u16")>>, <<P("char")>>), RecordOf(<<P("bool"), P("char")>>)}

Memories == [1..Cells -> Contents]
\* memories with a few interesting contents for the array types
Fixed == {[i \in 1..Cells |-> 0], [i \in 1..Cells |-> IF i % 4 = 1 THEN i % 3 ELSE 0],
          [i \in 1..Cells |-> 65], [i \in 1..Cells |-> IF i = 3 THEN 200 ELSE 97]}
Zero4 == <<0, 0, 0, 0>>

Init == \/ mode = "load" /\ t \in Types /\ m \in Memories /\ a \in {Num(0)} /\ n = Zero4
        \/ mode = "at" /\ t \in Types \cup Arrays /\ m \in Fixed /\ a \in Addresses /\ n = Zero4
        \/ mode = "lift" /\ t \in Arrays /\ m \in Fixed /\ a \in Addresses /\ n \in Lengths
        \/ mode = "hand" /\ t \in {RecordOf(<<x, y>>) : x, y \in {Own(1), Own(2), Borrow(1), Borrow(2)}}
           /\ m = <<>> /\ a \in Handle1 /\ n \in Handle1
        \/ mode = "one" /\ t \in Singles /\ m = <<>> /\ a \in EdgeNumbers /\ n = Zero4
        \/ mode = "two" /\ t \in Pairs2 /\ m = <<>> /\ a \in {Num(x) : x \in 0..2} /\ n \in EdgeNumbers
        \/ mode = "word" /\ t \in Singles /\ m \in EdgeNumbers /\ a = Zero4 /\ n = Zero4
Next == UNCHANGED <<t, m, a, n, mode>>
Spec == Init /\ [][Next]_<<t, m, a, n, mode>>

Pre1 == <<[r |-> 1, rep |-> <<9, 0, 0, 0>>], [r |-> 2, rep |-> <<8, 0, 0, 0>>], [r |-> 1, rep |-> <<7, 0, 0, 0>>]>>
S1 == AddHandle(AddHandle(AddHandle(Fresh(m, "utf-8", <<>>), 1, 1, OwnHandle(Pre1[1].rep)),
                          1, 2, OwnHandle(Pre1[2].rep)), 1, 1, OwnHandle(Pre1[3].rep))

Flat2 == IF mode = "one" THEN << <<"i32", a>> >> ELSE << <<"i32", a>>, <<"i32", n>> >>
IsFlat == mode \in {"lift", "hand", "one", "two"}
Result == IF IsFlat THEN Lift(S1, 1, t, Flat2)
          ELSE IF ~Aligned(a, Align(t)) \/ ~InMem(S1, 1, a, Size(t)) THEN <<Fail(S1, "trap"), Nothing>>
          ELSE Load(S1, 1, t, BytesToNat(a))
Reps(s) == {z \in (1..2) \X (0..3) : LiveSlot(s.ins[1].h[z[1]], z[2])}
Laws ==
  LET r == Result IN
  /\ r[1].st \in {"ok", "trap"}
  /\ r[1].mem = S1.mem
  /\ r[1].st = "ok" => WellTyped(t, r[2])
  /\ r[1].st = "ok" => TablesOK(r[1])
  /\ Reps(r[1]) \subseteq Reps(S1)
  \* an element of a list lifted successfully lies inside the memory
  /\ (mode = "lift" /\ r[1].st = "ok" /\ t.k = "list") => Len(r[2][2]) * Size(t.e) <= Len(m)

Emit == IF IsFlat
  THEN Behaviour([op |-> "lift", t |-> t, enc |-> "utf-8", mem |-> m, f |-> Flat2, impl |-> <<1, 2>>, pre |-> Pre1])
  ELSE Behaviour([op |-> "load", t |-> t, enc |-> "utf-8", mem |-> m, p |-> a, impl |-> <<1, 2>>, pre |-> Pre1])
=============================================================================
