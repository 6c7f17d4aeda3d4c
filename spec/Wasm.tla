-------------------------------- MODULE Wasm -------------------------------
(* The binary format of core modules, restricted to the sections and
   instructions the implementation knows: function types, functions, function
   exports and code.

   A module is [types, funcs, exports]:
     types[i]    [p, r]        parameters and results, value types 0..3
     funcs[i]    [t, loc, body]  type index (4 bytes), locals as runs
                               <<type, number>> with no two adjacent runs of one
                               type, and instructions [op, x]
     exports[i]  [name, idx]   the UTF-8 bytes of the name, function index
   DecodeWasm(bs) is [st |-> "module", m], [st |-> "component"], [st |-> "err"] or,
   where the format leaves the outcome to the implementation, [st |-> "any"]. *)
EXTENDS Leb, Unicode

Magic == <<0, 97, 115, 109>>
ModulePreamble == Magic \o <<1, 0, 0, 0>>
ComponentPreamble == Magic \o <<10, 0, 1, 0>>

ValTypeByte(t) == 127 - t
IsValType(b) == b \in 124..127

MaxLocals == 50000

\* ------------------------------ decoding ------------------------------
\* Readers return [st, v, p]: the value and the position behind it.
Fail == [st |-> "err", v |-> <<>>, p |-> 0]
Got(v, p) == [st |-> "ok", v |-> v, p |-> p]

\* a number of elements or bytes, each of which takes at least one byte of bs
Count(bs, p) ==
  LET n == LebAt(bs, p) IN
  IF n.st # "ok" THEN Fail
  ELSE IF ~Small(n.v) THEN Fail
  ELSE IF BytesToNat(n.v) > Len(bs) - (p + n.n) + 1 THEN Fail
  ELSE Got(BytesToNat(n.v), p + n.n)
Index(bs, p) == LET n == LebAt(bs, p) IN IF n.st = "ok" THEN Got(n.v, p + n.n) ELSE Fail

ValTypes(bs, p) ==
  LET c == Count(bs, p) IN
  IF c.st # "ok" THEN Fail
  ELSE IF \E i \in 0..(c.v - 1) : ~IsValType(bs[c.p + i]) THEN Fail
  ELSE Got([i \in 1..c.v |-> 127 - bs[c.p + i - 1]], c.p + c.v)

FuncType(bs, p) ==
  IF p > Len(bs) THEN Fail
  ELSE IF bs[p] # 96 THEN Fail
  ELSE LET a == ValTypes(bs, p + 1) IN
       IF a.st # "ok" THEN Fail
       ELSE LET b == ValTypes(bs, a.p) IN
            IF b.st # "ok" THEN Fail ELSE Got([p |-> a.v, r |-> b.v], b.p)

Export(bs, p) ==
  LET n == Count(bs, p) IN
  IF n.st # "ok" THEN Fail
  ELSE LET name == SubSeq(bs, n.p, n.p + n.v - 1)
           q == n.p + n.v
       IN  IF q > Len(bs) THEN Fail
           ELSE IF bs[q] # 0 \/ DecUtf8(name) = NoText THEN Fail
           ELSE LET x == Index(bs, q + 1) IN
                IF x.st # "ok" THEN Fail ELSE Got([name |-> name, idx |-> x.v], x.p)

Instr(bs, p) ==
  IF p > Len(bs) THEN Fail
  ELSE IF bs[p] = 11 THEN Got([op |-> "end", x |-> <<>>], p + 1)
  ELSE IF bs[p] = 106 THEN Got([op |-> "i32.add", x |-> <<>>], p + 1)
  ELSE IF bs[p] = 32 THEN LET x == Index(bs, p + 1) IN
       IF x.st = "ok" THEN Got([op |-> "local.get", x |-> x.v], x.p) ELSE Fail
  ELSE Fail

RECURSIVE Instrs(_, _, _)
Instrs(bs, p, acc) ==
  LET i == Instr(bs, p) IN
  IF i.st # "ok" THEN Fail
  ELSE IF i.v.op = "end" THEN Got(Append(acc, i.v), i.p)
  ELSE Instrs(bs, i.p, Append(acc, i.v))

AddRun(runs, t, n) ==
  IF n = 0 THEN runs
  ELSE IF runs # <<>> /\ runs[Len(runs)][1] = t
       THEN [runs EXCEPT ![Len(runs)] = <<t, @[2] + n>>]
       ELSE Append(runs, <<t, n>>)
\* k declarations; v is [runs, total], total above MaxLocals if it is too big
RECURSIVE Locals(_, _, _, _, _)
Locals(bs, p, k, runs, total) ==
  IF k = 0 THEN Got([runs |-> runs, total |-> total], p)
  ELSE LET n == LebAt(bs, p) IN
       IF n.st # "ok" THEN Fail
       ELSE LET q == p + n.n IN
            IF q > Len(bs) THEN Fail
            ELSE IF ~IsValType(bs[q]) THEN Fail
            ELSE LET c == IF Small(n.v) THEN BytesToNat(n.v) ELSE MaxLocals + 1
                     big == c > MaxLocals \/ total + c > MaxLocals
                 IN  Locals(bs, q + 1, k - 1,
                            IF big THEN runs ELSE AddRun(runs, 127 - bs[q], c),
                            IF big THEN MaxLocals + 1 ELSE total + c)

\* the body of a function, all of bs
Code(bs) ==
  LET c == Count(bs, 1) IN
  IF c.st # "ok" THEN Fail
  ELSE LET ls == Locals(bs, c.p, c.v, <<>>, 0) IN
       IF ls.st # "ok" THEN Fail
       ELSE LET b == Instrs(bs, ls.p, <<>>) IN
            IF b.st # "ok" THEN Fail
            ELSE IF b.p # Len(bs) + 1 THEN Fail
            ELSE Got([loc |-> ls.v.runs, body |-> b.v, big |-> ls.v.total > MaxLocals], b.p)

SizedCode(bs, p) ==
  LET c == Count(bs, p) IN
  IF c.st # "ok" THEN Fail
  ELSE LET d == Code(SubSeq(bs, c.p, c.p + c.v - 1)) IN
       IF d.st # "ok" THEN Fail ELSE Got(d.v, c.p + c.v)

Item(kind, bs, p) ==
  CASE kind = 1 -> FuncType(bs, p) [] kind = 3 -> Index(bs, p)
    [] kind = 7 -> Export(bs, p) [] kind = 10 -> SizedCode(bs, p)
RECURSIVE Items(_, _, _, _, _)
Items(kind, bs, p, k, acc) ==
  IF k = 0 THEN Got(acc, p)
  ELSE LET i == Item(kind, bs, p) IN
       IF i.st # "ok" THEN Fail ELSE Items(kind, bs, i.p, k - 1, Append(acc, i.v))
\* the items of a section, which fill it
Section(kind, bs) ==
  LET c == Count(bs, 1) IN
  IF c.st # "ok" THEN Fail
  ELSE LET r == Items(kind, bs, c.p, c.v, <<>>) IN
       IF r.st # "ok" THEN Fail ELSE IF r.p # Len(bs) + 1 THEN Fail ELSE r

Known == {1, 3, 7, 10}
Parts0 == [st |-> "ok", last |-> 0, odd |-> FALSE, s1 |-> <<>>, s3 |-> <<>>, s7 |-> <<>>, s10 |-> <<>>]
RECURSIVE Sections(_, _, _)
Sections(bs, p, m) ==
  IF p > Len(bs) THEN m
  ELSE LET c == Count(bs, p + 1) IN
       IF c.st # "ok" THEN [m EXCEPT !.st = "err"]
       ELSE LET id == bs[p]
                q  == c.p + c.v
                m2 == [m EXCEPT !.last = id]
            IN IF id \notin Known THEN Sections(bs, q, [m EXCEPT !.odd = @ \/ id > 13])
               ELSE IF id <= m.last THEN [m EXCEPT !.st = "err"]
               ELSE LET r == Section(id, SubSeq(bs, c.p, q - 1)) IN
                    IF r.st # "ok" THEN [m EXCEPT !.st = "err"]
                    ELSE Sections(bs, q,
                           CASE id = 1 -> [m2 EXCEPT !.s1 = r.v] [] id = 3 -> [m2 EXCEPT !.s3 = r.v]
                             [] id = 7 -> [m2 EXCEPT !.s7 = r.v] [] id = 10 -> [m2 EXCEPT !.s10 = r.v])

ModuleOf(m) ==
  IF m.st # "ok" THEN [st |-> "err"]
  ELSE IF Len(m.s3) # Len(m.s10) THEN [st |-> "err"]
  ELSE IF m.odd \/ \E i \in 1..Len(m.s10) : m.s10[i].big THEN [st |-> "any"]
  ELSE [st |-> "module",
        m |-> [types |-> m.s1, exports |-> m.s7,
               funcs |-> [i \in 1..Len(m.s3) |->
                            [t |-> m.s3[i], loc |-> m.s10[i].loc, body |-> m.s10[i].body]]]]

DecodeWasm(bs) ==
  IF Len(bs) < 8 THEN [st |-> "err"]
  ELSE IF SubSeq(bs, 1, 8) = ComponentPreamble THEN [st |-> "component"]
  ELSE IF SubSeq(bs, 1, 8) # ModulePreamble THEN [st |-> "err"]
  ELSE ModuleOf(Sections(bs, 9, Parts0))

\* ------------------------------ encoding ------------------------------
\* pad is the number of bytes by which every integer is longer than necessary
LebP(v, pad) == LebN(v, IF MinLen(v) + pad > 5 THEN 5 ELSE MinLen(v) + pad)
Nat4(x, pad) == LebP(NatToBytes(x, 4), pad)
VecOf(xs, pad) == Nat4(Len(xs), pad) \o FlattenSeq(xs)
EncValTypes(ts, pad) == VecOf([i \in 1..Len(ts) |-> <<ValTypeByte(ts[i])>>], pad)
EncType(t, pad) == <<96>> \o EncValTypes(t.p, pad) \o EncValTypes(t.r, pad)
EncExport(e, pad) == Nat4(Len(e.name), pad) \o e.name \o <<0>> \o LebP(e.idx, pad)
EncInstr(i, pad) == CASE i.op = "end" -> <<11>> [] i.op = "i32.add" -> <<106>>
                      [] i.op = "local.get" -> <<32>> \o LebP(i.x, pad)
EncCode(f, pad) ==
  LET b == VecOf([i \in 1..Len(f.loc) |-> Nat4(f.loc[i][2], pad) \o <<ValTypeByte(f.loc[i][1])>>], pad)
           \o FlattenSeq([i \in 1..Len(f.body) |-> EncInstr(f.body[i], pad)])
  IN  Nat4(Len(b), pad) \o b
EncSection(id, content, pad) == <<id>> \o Nat4(Len(content), pad) \o content
\* the sections of m as <<id, content>>, empty ones left out unless keep
SectionsOf(m, pad, keep) ==
  LET all == << <<1, VecOf([i \in 1..Len(m.types) |-> EncType(m.types[i], pad)], pad)>>,
                <<3, VecOf([i \in 1..Len(m.funcs) |-> LebP(m.funcs[i].t, pad)], pad)>>,
                <<7, VecOf([i \in 1..Len(m.exports) |-> EncExport(m.exports[i], pad)], pad)>>,
                <<10, VecOf([i \in 1..Len(m.funcs) |-> EncCode(m.funcs[i], pad)], pad)>> >>
      n(s) == CASE s[1] = 1 -> Len(m.types) [] s[1] = 7 -> Len(m.exports) [] OTHER -> Len(m.funcs)
  IN  SelectSeq(all, LAMBDA s : keep \/ n(s) > 0)
Assemble(secs, pad) ==
  ModulePreamble \o FlattenSeq([i \in 1..Len(secs) |-> EncSection(secs[i][1], secs[i][2], pad)])
=============================================================================
