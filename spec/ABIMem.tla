------------------------------- MODULE ABIMem ------------------------------
(* Storing, loading, flat lowering and flat lifting of component values.

   A value is a pair <<n, s>> of a sequence of numbers and a sequence of values:
     bool                   <<0|1>>
     integers and floats    their bytes, least significant first
     char                   <<code point>>
     string                 the code points
     list, record           s holds the elements
     variant                n = the case label followed by the labels it names
                            as refinements, s = <<>> or <<payload>>
     flags                  n = the bits
     own, borrow            the representation bytes
   A core value is <<kind, bytes>>.

   On top of the fields of Handles the state s has
     s.st        "ok", or why the operation stopped: "trap", "err", or "no"
                 when the recorded allocator calls cannot belong to it
     s.mem[i]    linear memory of instance i, a sequence of bytes
     s.R, s.k    the calls made to the allocator [a align, n size, o = 1 iff a
                 fresh allocation was requested, ok, p address bytes] and the
                 number of the next one; a = -1 leaves align and size open
   A failing step yields st # "ok" and every later step is skipped.          *)
EXTENDS Handles, ABITypes, Unicode

Fail(s, why) == IF s.st = "ok" THEN [s EXCEPT !.st = why] ELSE s
Ok(s) == s.st = "ok"
InstOf(s, c) == s.ctx[c].inst
MemLen(s, c) == Len(s.mem[InstOf(s, c)])

\* [p, p+n) with p as bytes lies in memory
InMem(s, c, p, n) == Small(p) /\ BytesToNat(p) + n <= MemLen(s, c)
Aligned(p, a) == BytesToNat(Trunc(p, 1)) % a = 0     \* a divides 256

WriteAt(m, p, bs) == SubSeq(m, 1, p) \o bs \o SubSeq(m, p + Len(bs) + 1, Len(m))
Put(s, c, p, bs) == [s EXCEPT !.mem[InstOf(s, c)] = WriteAt(@, p, bs)]
Get(s, c, p, n) == SubSeq(s.mem[InstOf(s, c)], p + 1, p + n)

\* ---- allocation: <<state, address as number>> ----
Alloc(s, c, a, n) ==
  IF s.k > Len(s.R) \/ s.R[s.k].o # 1 \/ (s.R[s.k].a # -1 /\ (s.R[s.k].a # a \/ s.R[s.k].n # n))
  THEN <<Fail(s, "no"), 0>>
  ELSE LET e  == s.R[s.k]
           s2 == [s EXCEPT !.k = @ + 1]
       IN  IF e.ok = 0 THEN <<Fail(s2, "err"), 0>>
           ELSE IF ~Aligned(e.p, a) \/ ~InMem(s, c, e.p, n) THEN <<Fail(s2, "err"), 0>>
           ELSE <<s2, BytesToNat(e.p)>>

\* ---- pieces of values ----
FlagByteBits(bits, j) == \* byte j (from 0) of the packed bits
  LET b(i) == IF 8 * j + i <= Len(bits) THEN bits[8 * j + i] ELSE 0
  IN b(1) + 2*b(2) + 4*b(3) + 8*b(4) + 16*b(5) + 32*b(6) + 64*b(7) + 128*b(8)
FlagBytes(bits, n) == [j \in 1..n |-> FlagByteBits(bits, j - 1)]
Pow2(i) == <<1, 2, 4, 8, 16, 32, 64, 128>>[i]
FlagsOf(bs, n) == [i \in 1..n |-> (bs[((i - 1) \div 8) + 1] \div Pow2(((i - 1) % 8) + 1)) % 2]

\* index (from 0) of the first of the labels that v knows, -1 if none
RECURSIVE LabelIndex(_, _), FirstKnown(_, _, _)
LabelIndex(v, l) ==
  IF l >= PadLabel THEN (IF l - PadLabel < v.pad THEN Len(v.cs) + l - PadLabel ELSE -1)
  ELSE LET S == {i \in 1..Len(v.cs) : v.cs[i].l = l}
       IN  IF S = {} THEN -1 ELSE (CHOOSE i \in S : TRUE) - 1
FirstKnown(v, ls, j) ==
  IF j > Len(ls) THEN -1
  ELSE IF LabelIndex(v, ls[j]) >= 0 THEN LabelIndex(v, ls[j]) ELSE FirstKnown(v, ls, j + 1)
\* label of a case followed by those of the cases it refines
RECURSIVE Labels(_, _)
Labels(v, cs) ==
  IF cs.r = <<>> \/ LabelIndex(v, cs.r[1]) < 0 THEN <<cs.l>>
  ELSE <<cs.l>> \o Labels(v, CaseAt(v, LabelIndex(v, cs.r[1])))

\* ---- storing ----
\* encoding actually used for a string
UsedEnc(enc, str) ==
  IF enc # "latin1+utf16" THEN enc ELSE IF IsLatin1(str) THEN "latin1" ELSE "utf-16-le"
\* code unit count with the utf-16 tag
TagLen(enc, str, n) ==
  LET b == NatToBytes(n, 4)
  IN  IF enc = "latin1+utf16" /\ ~IsLatin1(str) THEN [b EXCEPT ![4] = @ + 128] ELSE b

\* <<state, address bytes, tagged length bytes>>
StoreString(s, c, str) ==
  LET enc == s.ctx[c].enc
      ue  == UsedEnc(enc, str)
      bs  == Encode(ue, str)
      al  == Alloc(s, c, EncAlign(ue), Len(bs))
  IN  IF ~CanEncode(ue, str) THEN <<Fail(s, "err"), <<>>, <<>>>>
      ELSE IF ~Ok(al[1]) THEN <<al[1], <<>>, <<>>>>
      ELSE <<Put(al[1], c, al[2], bs), NatToBytes(al[2], 4),
             TagLen(enc, str, Len(bs) \div UnitSize(ue))>>

RECURSIVE Store(_, _, _, _, _), StoreFields(_, _, _, _, _, _), StoreElems(_, _, _, _, _, _, _),
          StoreList(_, _, _, _)
StoreFields(s, c, ts, vs, i, p) ==
  IF i > Len(ts) \/ ~Ok(s) THEN s
  ELSE LET q == AlignTo(p, Align(ts[i]))
       IN  StoreFields(Store(s, c, ts[i], vs[i], q), c, ts, vs, i + 1, q + Size(ts[i]))
\* elements i to j of vs, in order, the first one at p
StoreElems(s, c, e, vs, i, j, p) ==
  IF i > j \/ ~Ok(s) THEN s
  ELSE IF i = j THEN Store(s, c, e, vs[i], p)
  ELSE LET h == (i + j) \div 2
       IN  StoreElems(StoreElems(s, c, e, vs, i, h, p), c, e, vs, h + 1, j, p + (h + 1 - i) * Size(e))
StoreList(s, c, e, vs) ==
  LET al == Alloc(s, c, Align(e), Len(vs) * Size(e))
  IN  IF ~Ok(al[1]) THEN <<al[1], <<>>, <<>>>>
      ELSE <<StoreElems(al[1], c, e, vs, 1, Len(vs), al[2]), NatToBytes(al[2], 4), NatToBytes(Len(vs), 4)>>
Store(s, c, t0, v, p) ==
  LET t == Despec(t0) IN
  IF ~Ok(s) THEN s
  ELSE CASE t.k \in {"u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "bool"} ->
              Put(s, c, p, v[1])
    [] t.k = "f32" -> Put(s, c, p, CanonF32(v[1]))
    [] t.k = "f64" -> Put(s, c, p, CanonF64(v[1]))
    [] t.k = "char" -> Put(s, c, p, NatToBytes(v[1][1], 4))
    [] t.k = "string" ->
         LET r == StoreString(s, c, v[1])
         IN  IF Ok(r[1]) THEN Put(r[1], c, p, r[2] \o r[3]) ELSE r[1]
    [] t.k = "list" ->
         LET r == StoreList(s, c, t.e, v[2])
         IN  IF Ok(r[1]) THEN Put(r[1], c, p, r[2] \o r[3]) ELSE r[1]
    [] t.k = "record" -> StoreFields(s, c, t.ts, v[2], 1, p)
    [] t.k = "variant" ->
         LET i == FirstKnown(t, v[1], 1) IN
         IF i < 0 THEN Fail(s, "err")
         ELSE LET cs == CaseAt(t, i)
                  s2 == Put(s, c, p, NatToBytes(i, DiscSize(NCases(t))))
              IN  IF cs.t = <<>> THEN s2
                  ELSE Store(s2, c, cs.t[1], v[2][1], p + PayloadOffset(t))
    [] t.k = "flags" -> Put(s, c, p, FlagBytes(v[1], Size(t)))
    [] t.k = "own" -> LET r == LowerOwn(s, c, t.rt, v[1]) IN Put(r[2], c, p, r[3])
    [] t.k = "borrow" -> LET r == LowerBorrow(s, c, t.rt, v[1]) IN Put(r[2], c, p, r[3])

\* ---- loading: <<state, value>> ----
Nothing == << <<>>, <<>> >>
Leaf(bs) == <<bs, <<>>>>
LoadChar(s, bs) ==
  IF Small(bs) /\ Scalar(BytesToNat(bs)) THEN <<s, <<<<BytesToNat(bs)>>, <<>>>>>>
  ELSE <<Fail(s, "trap"), Nothing>>

\* string of length tl at address p (both as bytes); the length of an utf-8
\* string has no tag
LoadString(s, c, p, tl) ==
  LET enc == s.ctx[c].enc
      ue  == IF enc # "latin1+utf16" THEN enc
             ELSE IF tl[4] >= 128 THEN "utf-16-le" ELSE "latin1"
      n   == IF enc = "utf-8" THEN tl ELSE [tl EXCEPT ![4] = @ % 128]
      fits == /\ Small(n) /\ BytesToNat(n) <= MemLen(s, c)
              /\ InMem(s, c, p, BytesToNat(n) * UnitSize(ue))
  IN  IF ~Aligned(p, EncAlign(ue)) \/ ~fits THEN <<Fail(s, "trap"), Nothing>>
      ELSE LET d == Decode(ue, Get(s, c, BytesToNat(p), BytesToNat(n) * UnitSize(ue)))
           IN  IF d = NoText THEN <<Fail(s, "trap"), Nothing>> ELSE <<s, <<d, <<>>>>>>

RECURSIVE Load(_, _, _, _), LoadFields(_, _, _, _, _, _), LoadElems(_, _, _, _, _),
          LoadList(_, _, _, _, _)
LoadFields(s, c, ts, i, p, acc) ==
  IF i > Len(ts) \/ ~Ok(s) THEN <<s, acc>>
  ELSE LET q == AlignTo(p, Align(ts[i]))
           r == Load(s, c, ts[i], q)
       IN  LoadFields(r[1], c, ts, i + 1, q + Size(ts[i]), Append(acc, r[2]))
\* n elements, in order, the first one at p
LoadElems(s, c, e, n, p) ==
  IF n = 0 \/ ~Ok(s) THEN <<s, <<>>>>
  ELSE IF n = 1 THEN LET r == Load(s, c, e, p) IN <<r[1], <<r[2]>>>>
  ELSE LET h == n \div 2
           a == LoadElems(s, c, e, h, p)
           b == LoadElems(a[1], c, e, n - h, p + h * Size(e))
       IN  <<b[1], a[2] \o b[2]>>
LoadList(s, c, e, p, n) ==
  LET fits == IF Size(e) = 0 THEN Small(n) /\ InMem(s, c, p, 0)
              ELSE /\ Small(n) /\ BytesToNat(n) <= MemLen(s, c)
                   /\ InMem(s, c, p, BytesToNat(n) * Size(e))
  IN  IF ~Aligned(p, Align(e)) \/ ~fits THEN <<Fail(s, "trap"), Nothing>>
      ELSE LET r == LoadElems(s, c, e, BytesToNat(n), BytesToNat(p))
           IN  <<r[1], <<<<>>, r[2]>>>>
VariantValue(t, cs, pay) == <<Labels(t, cs), pay>>
Load(s, c, t0, p) ==
  LET t == Despec(t0) IN
  CASE t.k \in {"u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64"} ->
         <<s, Leaf(Get(s, c, p, Width(t.k)))>>
    [] t.k = "bool" -> <<s, Leaf(<<IF Get(s, c, p, 1)[1] = 0 THEN 0 ELSE 1>>)>>
    [] t.k = "f32" -> <<s, Leaf(CanonF32(Get(s, c, p, 4)))>>
    [] t.k = "f64" -> <<s, Leaf(CanonF64(Get(s, c, p, 8)))>>
    [] t.k = "char" -> LoadChar(s, Get(s, c, p, 4))
    [] t.k = "string" -> LoadString(s, c, Get(s, c, p, 4), Get(s, c, p + 4, 4))
    [] t.k = "list" -> LoadList(s, c, t.e, Get(s, c, p, 4), Get(s, c, p + 4, 4))
    [] t.k = "record" -> LET r == LoadFields(s, c, t.ts, 1, p, <<>>) IN <<r[1], <<<<>>, r[2]>>>>
    [] t.k = "variant" ->
         LET d == Get(s, c, p, DiscSize(NCases(t))) IN
         IF ~Small(d) \/ BytesToNat(d) >= NCases(t) THEN <<Fail(s, "trap"), Nothing>>
         ELSE LET cs == CaseAt(t, BytesToNat(d)) IN
              IF cs.t = <<>> THEN <<s, VariantValue(t, cs, <<>>)>>
              ELSE LET r == Load(s, c, cs.t[1], p + PayloadOffset(t))
                   IN  <<r[1], VariantValue(t, cs, <<r[2]>>)>>
    [] t.k = "flags" -> <<s, Leaf(FlagsOf(Get(s, c, p, Size(t)), t.n))>>
    [] t.k = "own" -> LET r == LiftOwn(s, c, t.rt, Get(s, c, p, 4))
                      IN  IF r[1] = "ok" THEN <<r[2], Leaf(r[3])>> ELSE <<Fail(s, "trap"), Nothing>>
    [] t.k = "borrow" -> LET r == LiftBorrow(s, c, t.rt, Get(s, c, p, 4))
                         IN  IF r[1] = "ok" THEN <<r[2], Leaf(r[3])>> ELSE <<Fail(s, "trap"), Nothing>>

\* ---- flat lowering: <<state, core values>> ----
I32(bs) == <<"i32", bs>>
ZeroOf(k) == <<k, Zeros(IF k \in {"i32", "f32"} THEN 4 ELSE 8)>>
\* bit pattern of core value x as kind k (k is what x's kind was joined into)
Widen(x, k) == IF x[1] = k THEN x ELSE <<k, Zext(x[2], IF k = "i32" THEN 4 ELSE 8)>>
\* and back
Narrow(x, k) == IF x[1] = k THEN x ELSE <<k, Trunc(x[2], IF k \in {"i32", "f32"} THEN 4 ELSE 8)>>

RECURSIVE Lower(_, _, _, _), LowerAll(_, _, _, _, _, _)
LowerAll(s, c, ts, vs, i, acc) ==
  IF i > Len(ts) \/ ~Ok(s) THEN <<s, acc>>
  ELSE LET r == Lower(s, c, ts[i], vs[i]) IN LowerAll(r[1], c, ts, vs, i + 1, acc \o r[2])
Lower(s, c, t0, v) ==
  LET t == Despec(t0) IN
  CASE t.k \in {"bool", "u8", "u16", "u32"} -> <<s, <<I32(Zext(v[1], 4))>>>>
    [] t.k \in {"s8", "s16", "s32"} -> <<s, <<I32(Sext(v[1], 4))>>>>
    [] t.k \in {"u64", "s64"} -> <<s, <<<<"i64", v[1]>>>>>>
    [] t.k = "f32" -> <<s, <<<<"f32", CanonF32(v[1])>>>>>>
    [] t.k = "f64" -> <<s, <<<<"f64", CanonF64(v[1])>>>>>>
    [] t.k = "char" -> <<s, <<I32(NatToBytes(v[1][1], 4))>>>>
    [] t.k = "string" -> LET r == StoreString(s, c, v[1]) IN <<r[1], <<I32(r[2]), I32(r[3])>>>>
    [] t.k = "list" -> LET r == StoreList(s, c, t.e, v[2]) IN <<r[1], <<I32(r[2]), I32(r[3])>>>>
    [] t.k = "record" -> LowerAll(s, c, t.ts, v[2], 1, <<>>)
    [] t.k = "variant" ->
         LET i == FirstKnown(t, v[1], 1) IN
         IF i < 0 THEN <<Fail(s, "err"), <<>>>>
         ELSE LET cs == CaseAt(t, i)
                  jk == Tail(Flatten(t))
                  r  == IF cs.t = <<>> THEN <<s, <<>>>> ELSE Lower(s, c, cs.t[1], v[2][1])
              IN  IF ~Ok(r[1]) THEN r
                  ELSE <<r[1], <<I32(NatToBytes(i, 4))>> \o
                         [j \in 1..Len(jk) |-> IF j <= Len(r[2]) THEN Widen(r[2][j], jk[j])
                                               ELSE ZeroOf(jk[j])]>>
    [] t.k = "flags" -> LET n == FlagWords(t.n) bs == FlagBytes(v[1], 4 * n)
                        IN  <<s, [j \in 1..n |-> I32(SubSeq(bs, 4 * j - 3, 4 * j))]>>
    [] t.k = "own" -> LET r == LowerOwn(s, c, t.rt, v[1]) IN <<r[2], <<I32(r[3])>>>>
    [] t.k = "borrow" -> LET r == LowerBorrow(s, c, t.rt, v[1]) IN <<r[2], <<I32(r[3])>>>>

\* ---- flat lifting: <<state, value>>; f has exactly the kinds Flatten(t) ----
KindsMatch(f, kinds) == /\ Len(f) >= Len(kinds)
                        /\ \A j \in 1..Len(kinds) : f[j][1] = kinds[j]

RECURSIVE Lift(_, _, _, _), LiftAll(_, _, _, _, _, _)
LiftAll(s, c, ts, f, i, acc) ==
  IF i > Len(ts) \/ ~Ok(s) THEN <<s, acc>>
  ELSE LET n == Len(Flatten(ts[i]))
           r == Lift(s, c, ts[i], SubSeq(f, 1, n))
       IN  LiftAll(r[1], c, ts, SubSeq(f, n + 1, Len(f)), i + 1, Append(acc, r[2]))
Lift(s, c, t0, f) ==
  LET t == Despec(t0) IN
  CASE t.k \in {"u8", "u16", "u32", "s8", "s16", "s32"} -> <<s, Leaf(Trunc(f[1][2], Width(t.k)))>>
    [] t.k \in {"u64", "s64"} -> <<s, Leaf(f[1][2])>>
    [] t.k = "bool" -> <<s, Leaf(<<IF AllZero(f[1][2]) THEN 0 ELSE 1>>)>>
    [] t.k = "f32" -> <<s, Leaf(CanonF32(f[1][2]))>>
    [] t.k = "f64" -> <<s, Leaf(CanonF64(f[1][2]))>>
    [] t.k = "char" -> LoadChar(s, f[1][2])
    [] t.k = "string" -> LoadString(s, c, f[1][2], f[2][2])
    [] t.k = "list" -> LoadList(s, c, t.e, f[1][2], f[2][2])
    [] t.k = "record" -> LET r == LiftAll(s, c, t.ts, f, 1, <<>>) IN <<r[1], <<<<>>, r[2]>>>>
    [] t.k = "variant" ->
         LET d == f[1][2] IN
         IF ~Small(d) \/ BytesToNat(d) >= NCases(t) THEN <<Fail(s, "trap"), Nothing>>
         ELSE LET cs == CaseAt(t, BytesToNat(d)) IN
              IF cs.t = <<>> THEN <<s, VariantValue(t, cs, <<>>)>>
              ELSE LET pk == Flatten(cs.t[1])
                       r  == Lift(s, c, cs.t[1], [j \in 1..Len(pk) |-> Narrow(f[j + 1], pk[j])])
                   IN  <<r[1], VariantValue(t, cs, <<r[2]>>)>>
    [] t.k = "flags" -> <<s, Leaf(FlagsOf(FlattenSeq([j \in 1..Len(f) |-> f[j][2]]), t.n))>>
    [] t.k = "own" -> LET r == LiftOwn(s, c, t.rt, f[1][2])
                      IN  IF r[1] = "ok" THEN <<r[2], Leaf(r[3])>> ELSE <<Fail(s, "trap"), Nothing>>
    [] t.k = "borrow" -> LET r == LiftBorrow(s, c, t.rt, f[1][2])
                         IN  IF r[1] = "ok" THEN <<r[2], Leaf(r[3])>> ELSE <<Fail(s, "trap"), Nothing>>

\* ---- parameter and result lists, spilled to memory beyond max core values ----
SpillType(ts) == [k |-> "record", ts |-> ts]
\* out is <<>> (allocate) or <<address bytes>> (where the caller wants it)
LowerValues(s, c, max, ts, vs, out) ==
  IF Len(FlattenAll(ts)) <= max THEN LowerAll(s, c, ts, vs, 1, <<>>)
  ELSE LET t == SpillType(ts) IN
       IF out = <<>>
       THEN LET al == Alloc(s, c, Align(t), Size(t))
            IN  <<Store(al[1], c, t, << <<>>, vs>>, al[2]), <<I32(NatToBytes(al[2], 4))>>>>
       ELSE IF ~Aligned(out[1], Align(t)) \/ ~InMem(s, c, out[1], Size(t))
            THEN <<Fail(s, "err"), <<>>>>
            ELSE <<Store(s, c, t, << <<>>, vs>>, BytesToNat(out[1])), <<>>>>
\* f has at least the core values needed, of the right kinds
LiftValues(s, c, max, ts, f) ==
  IF Len(FlattenAll(ts)) <= max
  THEN LiftAll(s, c, ts, f, 1, <<>>)
  ELSE LET t == SpillType(ts) p == f[1][2] IN
       IF ~Aligned(p, Align(t)) \/ ~InMem(s, c, p, Size(t)) THEN <<Fail(s, "trap"), <<>>>>
       ELSE LoadFields(s, c, ts, 1, BytesToNat(p), <<>>)

\* ---- well-typed values ----
RECURSIVE WellTyped(_, _)
WellTyped(t0, v) ==
  LET t == Despec(t0) IN
  CASE t.k = "bool" -> v[1] \in {<<0>>, <<1>>}
    [] t.k = "char" -> Scalar(v[1][1])
    [] t.k \in Scalars -> Len(v[1]) = Width(t.k)
    [] t.k = "string" -> \A i \in 1..Len(v[1]) : Scalar(v[1][i])
    [] t.k = "list" -> \A i \in 1..Len(v[2]) : WellTyped(t.e, v[2][i])
    [] t.k = "record" -> Len(v[2]) = Len(t.ts) /\ \A i \in 1..Len(t.ts) : WellTyped(t.ts[i], v[2][i])
    [] t.k = "variant" ->
         LET i == FirstKnown(t, v[1], 1) IN
         i >= 0 /\ (CaseAt(t, i).t # <<>> => WellTyped(CaseAt(t, i).t[1], v[2][1]))
    [] t.k = "flags" -> Len(v[1]) = t.n
    [] t.k \in {"own", "borrow"} -> Len(v[1]) = 4

\* ---- the value as it comes back: NaNs canonical, labels with refinements ----
RECURSIVE Norm(_, _)
Norm(t0, v) ==
  LET t == Despec(t0) IN
  CASE t.k = "f32" -> Leaf(CanonF32(v[1]))
    [] t.k = "f64" -> Leaf(CanonF64(v[1]))
    [] t.k = "list" -> << <<>>, [i \in 1..Len(v[2]) |-> Norm(t.e, v[2][i])]>>
    [] t.k = "record" -> << <<>>, [i \in 1..Len(t.ts) |-> Norm(t.ts[i], v[2][i])]>>
    [] t.k = "variant" ->
         LET cs == CaseAt(t, FirstKnown(t, v[1], 1))
         IN  VariantValue(t, cs, IF cs.t = <<>> THEN <<>> ELSE <<Norm(cs.t[1], v[2][1])>>)
    [] OTHER -> v
=============================================================================
