----------------------------- MODULE ABITypes ------------------------------
(* Component value types and their Canonical ABI layout and flattening.

   A type is a record with field k:
     "bool" "u8".."u64" "s8".."s64" "f32" "f64" "char" "string"
     "list"    e              element type
     "record"  ts             field types, in order
     "tuple"   ts
     "variant" cs, pad        cases [l label, t <<>> or <<type>>, r <<>> or
                              <<label>>], then pad cases without payload
     "union"   ts
     "enum"    n              number of labels
     "option"  e
     "result"  a, b           <<>> or <<type>>
     "flags"   n              number of labels
     "own" "borrow"  rt       index of the resource type
   any other k has neither layout nor flat form.                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
AlignTo(p, a) == ((p + a - 1) \div a) * a

Case(l, t) == [l |-> l, t |-> t, r |-> <<>>]

PadLabel == 1000000       \* labels of padding cases are PadLabel + 0, 1, ...

\* Tuples, unions, enums, options and results abbreviate records and variants.
Despec(t) ==
  CASE t.k = "tuple"  -> [k |-> "record", ts |-> t.ts]
    [] t.k = "union"  -> [k |-> "variant",
                          cs |-> [i \in 1..Len(t.ts) |-> Case(i - 1, <<t.ts[i]>>)], pad |-> 0]
    [] t.k = "enum"   -> [k |-> "variant", cs |-> <<>>, pad |-> t.n]
    [] t.k = "option" -> [k |-> "variant",
                          cs |-> <<Case(0, <<>>), Case(1, <<t.e>>)>>, pad |-> 0]
    [] t.k = "result" -> [k |-> "variant",
                          cs |-> <<Case(0, t.a), Case(1, t.b)>>, pad |-> 0]
    [] OTHER -> t

NCases(v) == Len(v.cs) + v.pad
CaseAt(v, i) == \* i counts from 0
  IF i < Len(v.cs) THEN v.cs[i + 1] ELSE Case(PadLabel + i - Len(v.cs), <<>>)
DiscSize(n) == IF n <= 256 THEN 1 ELSE IF n <= 65536 THEN 2 ELSE 4
Payloads(v) == {v.cs[i].t[1] : i \in {j \in 1..Len(v.cs) : v.cs[j].t # <<>>}}

Scalars == {"bool", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64",
            "f32", "f64", "char"}
Width(k) == CASE k \in {"bool", "u8", "s8"} -> 1
              [] k \in {"u16", "s16"} -> 2
              [] k \in {"u32", "s32", "f32", "char"} -> 4
              [] k \in {"u64", "s64", "f64"} -> 8

RECURSIVE HasLayout(_)
HasLayout(t0) ==
  LET t == Despec(t0) IN
  CASE t.k \in Scalars \cup {"string", "list", "flags", "own", "borrow"} -> TRUE
    [] t.k = "record" -> \A i \in 1..Len(t.ts) : HasLayout(t.ts[i])
    [] t.k = "variant" -> NCases(t) > 0 /\ \A p \in Payloads(t) : HasLayout(p)
    [] OTHER -> FALSE

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Align(_)
CaseAlign(v) == MaxOf({1} \cup {Align(p) : p \in Payloads(v)})
Align(t0) ==
  LET t == Despec(t0) IN
  CASE t.k \in Scalars -> Width(t.k)
    [] t.k \in {"string", "list", "own", "borrow"} -> 4
    [] t.k = "record" -> MaxOf({1} \cup {Align(t.ts[i]) : i \in 1..Len(t.ts)})
    [] t.k = "variant" -> Max2(DiscSize(NCases(t)), CaseAlign(t))
    [] t.k = "flags" -> IF t.n <= 8 THEN 1 ELSE IF t.n <= 16 THEN 2 ELSE 4

FlagWords(n) == (n + 31) \div 32

RECURSIVE Size(_), FieldsEnd(_, _, _)
FieldsEnd(ts, i, off) ==
  IF i > Len(ts) THEN off
  ELSE FieldsEnd(ts, i + 1, AlignTo(off, Align(ts[i])) + Size(ts[i]))
Size(t0) ==
  LET t == Despec(t0) IN
  CASE t.k \in Scalars -> Width(t.k)
    [] t.k \in {"string", "list"} -> 8
    [] t.k \in {"own", "borrow"} -> 4
    [] t.k = "record" -> AlignTo(FieldsEnd(t.ts, 1, 0), Align(t))
    [] t.k = "variant" ->
         AlignTo(AlignTo(DiscSize(NCases(t)), CaseAlign(t))
                 + MaxOf({0} \cup {Size(p) : p \in Payloads(t)}), Align(t))
    [] t.k = "flags" -> IF t.n = 0 THEN 0 ELSE IF t.n <= 8 THEN 1
                        ELSE IF t.n <= 16 THEN 2 ELSE 4 * FlagWords(t.n)

\* where a variant's payload starts, relative to the variant
PayloadOffset(v) == AlignTo(DiscSize(NCases(v)), CaseAlign(v))

Join(a, b) == IF a = b THEN a
              ELSE IF {a, b} = {"i32", "f32"} THEN "i32" ELSE "i64"
JoinSeqs(f, g) ==
  [i \in 1..Max2(Len(f), Len(g)) |->
     IF i > Len(g) THEN f[i] ELSE IF i > Len(f) THEN g[i] ELSE Join(f[i], g[i])] \o <<>>

RECURSIVE Flatten(_), FlattenAll(_), JoinCases(_, _, _)
FlattenAll(ts) == FlattenSeq([i \in 1..Len(ts) |-> Flatten(ts[i])])
\* what the payloads of cases i to j of cs have in common
JoinCases(cs, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN IF cs[i].t = <<>> THEN <<>> ELSE Flatten(cs[i].t[1])
  ELSE LET h == (i + j) \div 2
           f == JoinCases(cs, i, h)
           g == JoinCases(cs, h + 1, j)
       IN  JoinSeqs(f, g)
Flatten(t0) ==
  LET t == Despec(t0) IN
  CASE t.k \in {"u64", "s64"} -> <<"i64">>
    [] t.k \in {"f32", "f64"} -> <<t.k>>
    [] t.k \in Scalars \cup {"own", "borrow"} -> <<"i32">>
    [] t.k \in {"string", "list"} -> <<"i32", "i32">>
    [] t.k = "record" -> FlattenAll(t.ts)
    [] t.k = "variant" -> <<"i32">> \o JoinCases(t.cs, 1, Len(t.cs))
    [] t.k = "flags" -> [i \in 1..FlagWords(t.n) |-> "i32"]

\* Core signature of a function with parameter types ps and result types rs.
CoreSig(ps, rs, dir, maxP, maxR) ==
  LET fp == FlattenAll(ps)
      fr == FlattenAll(rs)
      p  == IF Len(fp) > maxP THEN <<"i32">> ELSE fp
  IN  IF Len(fr) <= maxR THEN [p |-> p, r |-> fr]
      ELSE IF dir = "lift" THEN [p |-> p, r |-> <<"i32">>]
      ELSE [p |-> Append(p, "i32"), r |-> <<>>]
=============================================================================
