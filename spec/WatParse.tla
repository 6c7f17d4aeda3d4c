------------------------------ MODULE WatParse -----------------------------
(* The supported grammar of text modules, and the syntax tree of a text.

   A tree is [k, s, b, c]: kind, identifier or mnemonic, bytes (numbers,
   strings, and for constants the literal as written), children.  A result is
   [st, p, v, loose]: v the trees, p the next token, or the first wrong one; loose says that the text
   is accepted here although the text format is stricter (order of the parts
   of a function, for example), so that an error would be right as well.     *)
EXTENDS WatNum, Text
LOCAL U == INSTANCE Unicode

N(k, s, b, c) == [k |-> k, s |-> s, b |-> b, c |-> c]
L(k, c) == N(k, "", <<>>, c)

---- (* tokens *)

Trivia == {"space", "linecomment", "blockcomment"}

RECURSIVE TokensFrom(_, _, _)
\* at most k tokens from p on and where they end, 0 behind the last; e is the
\* end in bytes, white space and comments are left out
TokensFrom(bs, p, k) ==
  IF p = 0 \/ k = 0 THEN [t |-> <<>>, p |-> p]
  ELSE IF k > 1
  THEN LET a == TokensFrom(bs, p, k \div 2)
           b == TokensFrom(bs, a.p, k - k \div 2)
       IN  [t |-> a.t \o b.t, p |-> b.p]
  ELSE LET r == Tok(bs, p) IN
       \* a lexer may let a string with an escaped number that is no character
       \* pass, no parser may
       IF r.st # "ok" THEN [t |-> <<[t |-> IF r.t = "nochar" THEN "err" ELSE r.st, w |-> <<>>, s |-> "", e |-> p - 1]>>, p |-> 0]
       ELSE IF r.t = "eof" THEN [t |-> <<[t |-> "eof", w |-> <<>>, s |-> "", e |-> p - 1]>>, p |-> 0]
       ELSE IF r.t \in Trivia THEN [t |-> <<>>, p |-> p + r.n]
       ELSE LET w == SubSeq(bs, p, p + r.n - 1)
            IN  [t |-> <<[t |-> r.t, w |-> w, s |-> IF r.t \in {"string", "integer", "float"} THEN "" ELSE Str(w), e |-> p + r.n - 1]>>,
                 p |-> p + r.n]
Tokens(bs) == TokensFrom(bs, 1, Len(bs) + 1).t

Tk(T, p) == IF p <= Len(T) THEN T[p] ELSE T[Len(T)]
IsT(T, p, t) == Tk(T, p).t = t
IsW(T, p, s) == Tk(T, p).t = "reserved" /\ Tk(T, p).s = s
Open(T, p)  == IsT(T, p, "open")
Close(T, p) == IsT(T, p, "close")

Fail(p) == [st |-> "err", p |-> p, v |-> <<>>, loose |-> FALSE]
Yes(p, v, loose) == [st |-> "ok", p |-> p, v |-> v, loose |-> loose]

---- (* strings *)

Utf8(x) == IF x < 128 THEN <<x>>
           ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
           ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
           ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
RECURSIVE Decoded(_, _)
\* the bytes that the string token w denotes, from position i on
Decoded(w, i) ==
  IF i >= Len(w) THEN <<>>
  ELSE IF w[i] # 92 THEN <<w[i]>> \o Decoded(w, i + 1)
  ELSE LET c == w[i + 1] IN
       IF c = 116 THEN <<9>> \o Decoded(w, i + 2)
       ELSE IF c = 110 THEN <<10>> \o Decoded(w, i + 2)
       ELSE IF c = 114 THEN <<13>> \o Decoded(w, i + 2)
       ELSE IF c \in {34, 39, 92} THEN <<c>> \o Decoded(w, i + 2)
       ELSE IF c = 117 THEN LET j == NumEnd(w, i + 3, HexDigits)
                            IN  Utf8(HexNat(w, i + 3, j - 1)) \o Decoded(w, j + 1)
       ELSE <<16 * HexVal(c) + HexVal(w[i + 2])>> \o Decoded(w, i + 3)
StringVal(tk) == Decoded(tk.w, 2)
\* names of the text format are UTF-8
NotUtf8(tk) == U!DecUtf8(StringVal(tk)) = U!NoText

---- (* parts *)

ValTypes == {"i32", "i64", "f32", "f64"}
IsVal(T, p) == Tk(T, p).t = "reserved" /\ Tk(T, p).s \in ValTypes
RECURSIVE ValsFrom(_, _)
ValsFrom(T, p) == IF IsVal(T, p) THEN <<L("valtype", <<>>)>> \o ValsFrom(T, p + 1) ELSE <<>>
\* value types from p on
Vals(T, p) == LET n == Len(ValsFrom(T, p)) IN [i \in 1..n |-> N("valtype", Tk(T, p + i - 1).s, <<>>, <<>>)]

\* p is the token behind "(" and the keyword of the list; the result is in
\* front of ")"
IdAt(T, p) == IF IsT(T, p, "id") THEN Tk(T, p).s ELSE ""
AfterId(T, p) == IF IsT(T, p, "id") THEN p + 1 ELSE p

Param(T, p) ==
  IF IsT(T, p, "id")
  THEN IF IsVal(T, p + 1) THEN Yes(p + 2, <<N("param", Tk(T, p).s, <<>>, <<N("valtype", Tk(T, p + 1).s, <<>>, <<>>)>>)>>, FALSE)
       ELSE Fail(p + 1)
  ELSE LET vs == Vals(T, p) IN Yes(p + Len(vs), <<L("param", vs)>>, FALSE)
ResultList(T, p) == LET vs == Vals(T, p) IN Yes(p + Len(vs), <<L("result", vs)>>, FALSE)
Local(T, p) == IF IsVal(T, p) THEN Yes(p + 1, <<L("local", <<N("valtype", Tk(T, p).s, <<>>, <<>>)>>)>>, FALSE) ELSE Fail(p)
Export(T, p) == IF IsT(T, p, "string") THEN Yes(p + 1, <<N("export", "", StringVal(Tk(T, p)), <<>>)>>, NotUtf8(Tk(T, p))) ELSE Fail(p)
Import(T, p) ==
  IF IsT(T, p, "string") /\ IsT(T, p + 1, "string")
  THEN Yes(p + 2, <<L("import", <<N("name", "", StringVal(Tk(T, p)), <<>>), N("name", "", StringVal(Tk(T, p + 1)), <<>>)>>)>>,
           NotUtf8(Tk(T, p)) \/ NotUtf8(Tk(T, p + 1)))
  ELSE Fail(IF IsT(T, p, "string") THEN p + 1 ELSE p)
IsIndex(T, p) == Tk(T, p).t \in {"integer", "id"}
Index(T, p) ==
  IF IsT(T, p, "id") THEN Yes(p + 1, <<N("index", Tk(T, p).s, <<>>, <<>>)>>, FALSE)
  ELSE IF IsT(T, p, "integer") /\ UintOf(Tk(T, p).w).st = "ok"
  THEN Yes(p + 1, <<N("index", "", UintOf(Tk(T, p).w).b, <<>>)>>, FALSE)
  ELSE Fail(p)
RECURSIVE Indices(_, _)
Indices(T, p) == IF ~IsIndex(T, p) THEN Yes(p, <<>>, FALSE)
                 ELSE LET i == Index(T, p)
                          r == Indices(T, p + 1)
                      IN  IF i.st # "ok" THEN i ELSE IF r.st # "ok" THEN r ELSE Yes(r.p, i.v \o r.v, FALSE)

Limits(T, p) ==
  IF ~(IsT(T, p, "integer") /\ UintOf(Tk(T, p).w).st = "ok") THEN Fail(p)
  ELSE IF ~IsT(T, p + 1, "integer") THEN Yes(p + 1, <<N("limits", "", UintOf(Tk(T, p).w).b, <<>>)>>, FALSE)
  ELSE IF UintOf(Tk(T, p + 1).w).st # "ok" THEN Fail(p + 1)
  ELSE Yes(p + 2, <<N("limits", "", UintOf(Tk(T, p).w).b, <<N("max", "", UintOf(Tk(T, p + 1).w).b, <<>>)>>)>>, FALSE)
NoLimits == N("limits", "", <<0, 0, 0, 0>>, <<>>)

---- (* instructions *)

Plain == { "return", "drop", "select", "memory.grow", "i32.load", "i32.store",
           "f32.add", "f32.sub", "f32.mul", "f32.div", "f32.sqrt", "f32.min", "f32.max", "f32.ceil",
           "f32.floor", "f32.trunc", "f32.nearest",
           "i32.add", "i32.sub", "i32.mul", "i32.div_s", "i32.div_u", "i32.rem_s", "i32.rem_u", "i32.and",
           "i32.or", "i32.xor", "i32.shl", "i32.shr_s", "i32.shr_u", "i32.rotl", "i32.rotr", "i32.clz",
           "i32.ctz", "i32.popcnt", "i32.extend8_s", "i32.extend16_s", "i32.eqz", "i32.eq", "i32.ne",
           "i32.lt_s", "i32.lt_u", "i32.le_s", "i32.le_u", "i32.gt_s", "i32.gt_u", "i32.ge_s", "i32.ge_u" }
Indexed == { "br", "br_if", "call", "local.get", "local.set", "local.tee", "global.get", "global.set" }
Consts == { "i32.const", "i64.const", "f32.const", "f64.const" }

\* the literal is one of the type
LiteralOK(m, tk) ==
  CASE m = "i32.const" -> tk.t = "integer" /\ IntOf(tk.w, 32).st = "ok"
    [] m = "i64.const" -> tk.t = "integer" /\ IntOf(tk.w, 64).st = "ok"
    [] OTHER -> /\ tk.t \in {"integer", "float"}
                /\ LET f == IF m = "f32.const" THEN F32 ELSE F64
                       u == NoUnderscore(Unsigned(tk.w)) IN
                   IF u \in {Inf, Nan, NanCanonical, NanArithmetic} THEN TRUE
                   ELSE IF StartsWith(u, Nan)
                   THEN LET x == DigitsVal(SubSeq(u, 7, Len(u)), 16) IN x # <<>> /\ Cmp(x, Pow2(f.p - 1)) < 0
                   ELSE LET v == ValueOf(u) IN ~TooBig(v) /\ (TooSmall(v) \/ ~Overflows(v, f))

RECURSIVE Inst(_, _, _), Folded(_, _), Insts(_, _), IfParts(_, _, _), BlockResults(_, _)

\* ( result ... )* in front of instructions
BlockResults(T, p) ==
  IF ~(Open(T, p) /\ IsW(T, p + 1, "result")) THEN Yes(p, <<>>, FALSE)
  ELSE LET r == ResultList(T, p + 2) IN
       IF ~Close(T, r.p) THEN Fail(r.p)
       ELSE LET more == BlockResults(T, r.p + 1)
            IN  IF more.st # "ok" THEN more ELSE Yes(more.p, r.v \o more.v, FALSE)

Block(T, p, k, folded) ==
  LET r == BlockResults(T, AfterId(T, p)) IN
  IF r.st # "ok" THEN r
  ELSE LET b == Insts(T, r.p)
       IN  IF b.st # "ok" THEN b
           ELSE Yes(b.p, <<N(k, IdAt(T, p), <<>>, <<L("results", r.v), L("body", b.v)>>)>>, ~folded \/ b.loose)

\* acc: [re, cl, th, el, rank, loose]; th and el are sequences of trees
IfParts(T, p, acc) ==
  IF ~Open(T, p)
  THEN IF Len(acc.th) # 1 THEN Fail(p)
       ELSE Yes(p, <<L("results", acc.re), L("clause", acc.cl), acc.th[1]>> \o acc.el, acc.loose)
  ELSE LET put(r, rank, a) ==
             IF r.st # "ok" THEN r
             ELSE IF ~Close(T, r.p) THEN Fail(r.p)
             ELSE IfParts(T, r.p + 1, [a EXCEPT !.rank = IF @ > rank THEN @ ELSE rank,
                                                !.loose = @ \/ r.loose \/ acc.rank > rank]) IN
       IF IsW(T, p + 1, "result")
       THEN LET r == ResultList(T, p + 2) IN put(r, 1, [acc EXCEPT !.re = @ \o r.v])
       ELSE IF IsW(T, p + 1, "then")
       THEN LET r == Insts(T, p + 2)
            IN  IF acc.th # <<>> THEN Fail(p + 1) ELSE put(r, 3, [acc EXCEPT !.th = <<L("then", r.v)>>])
       ELSE IF IsW(T, p + 1, "else")
       THEN LET r == Insts(T, p + 2)
            IN  IF acc.el # <<>> THEN Fail(p + 1) ELSE put(r, 4, [acc EXCEPT !.el = <<L("else", r.v)>>])
       ELSE LET r == Folded(T, p + 1) IN put(r, 2, [acc EXCEPT !.cl = @ \o r.v])
NoIf == [re |-> <<>>, cl |-> <<>>, th |-> <<>>, el |-> <<>>, rank |-> 0, loose |-> FALSE]

\* an instruction at p; folded tells whether it is inside of parentheses
Inst(T, p, folded) ==
  IF ~IsT(T, p, "reserved") THEN Fail(p)
  ELSE LET m == Tk(T, p).s IN
       IF m \in Plain THEN Yes(p + 1, <<N("inst", m, <<>>, <<>>)>>, FALSE)
       ELSE IF m \in Indexed
       THEN LET i == Index(T, p + 1) IN IF i.st = "ok" THEN Yes(i.p, <<N("inst", m, <<>>, i.v)>>, FALSE) ELSE i
       ELSE IF m = "br_table"
       THEN LET i == Indices(T, p + 1)
            IN  IF i.st = "ok" /\ i.v # <<>> THEN Yes(i.p, <<N("inst", m, <<>>, i.v)>>, FALSE) ELSE Fail(i.p)
       ELSE IF m \in Consts
       THEN IF LiteralOK(m, Tk(T, p + 1)) THEN Yes(p + 2, <<N("inst", m, Tk(T, p + 1).w, <<>>)>>, FALSE) ELSE Fail(p + 1)
       ELSE IF m \in {"block", "loop"} THEN Block(T, p + 1, m, folded)
       ELSE IF m = "if"
       THEN LET r == IfParts(T, AfterId(T, p + 1), NoIf)
            IN  IF r.st = "ok" THEN Yes(r.p, <<N("if", IdAt(T, p + 1), <<>>, r.v)>>, ~folded \/ r.loose) ELSE r
       ELSE IF m = "call_indirect"
       THEN IF Open(T, p + 1) /\ IsW(T, p + 2, "type") /\ IsT(T, p + 3, "id") /\ Close(T, p + 4)
            THEN Yes(p + 5, <<N("inst", m, <<>>, <<N("index", Tk(T, p + 3).s, <<>>, <<>>)>>)>>, FALSE)
            ELSE Fail(IF ~Open(T, p + 1) THEN p + 1 ELSE IF ~IsW(T, p + 2, "type") THEN p + 2
                      ELSE IF ~IsT(T, p + 3, "id") THEN p + 3 ELSE p + 4)
       ELSE Fail(p)

\* an instruction and its parameters; p is behind "("
Folded(T, p) ==
  LET i == Inst(T, p, TRUE) IN
  IF i.st # "ok" THEN i
  ELSE LET a == Insts(T, i.p)
       IN  IF a.st # "ok" THEN a
           ELSE IF a.v = <<>> THEN i
           ELSE Yes(a.p, <<L("folded", i.v \o a.v)>>, i.loose \/ a.loose)

\* folded instructions
Insts(T, p) ==
  IF ~Open(T, p) THEN Yes(p, <<>>, FALSE)
  ELSE LET i == Folded(T, p + 1) IN
       IF i.st # "ok" THEN i
       ELSE IF ~Close(T, i.p) THEN Fail(i.p)
       ELSE LET r == Insts(T, i.p + 1)
            IN  IF r.st # "ok" THEN r ELSE Yes(r.p, i.v \o r.v, i.loose \/ r.loose)

---- (* fields *)

RECURSIVE FuncBody(_, _, _), FuncParts(_, _, _), TypeParts(_, _, _), Elems(_, _), Fields(_, _, _)

FuncTree(id, a) ==
  N("func", id, <<>>, <<L("exports", a.ex), L("imports", a.im), L("params", a.pa), L("results", a.re),
                        L("locals", a.lo), L("body", a.bo)>>)
\* plain and folded instructions up to ")"
FuncBody(T, p, a) ==
  IF Close(T, p) THEN Yes(p, <<FuncTree(a.id, a)>>, a.loose)
  ELSE LET i == IF Open(T, p) THEN Folded(T, p + 1) ELSE Inst(T, p, FALSE) IN
       IF i.st # "ok" THEN i
       ELSE IF Open(T, p) /\ ~Close(T, i.p) THEN Fail(i.p)
       ELSE FuncBody(T, IF Open(T, p) THEN i.p + 1 ELSE i.p,
                     [a EXCEPT !.bo = @ \o i.v, !.loose = @ \/ i.loose])
FuncParts(T, p, a) ==
  IF ~Open(T, p) THEN FuncBody(T, p, a)
  ELSE LET q == p + 2
           put(r, rank, b) ==
             IF r.st # "ok" THEN r
             ELSE IF ~Close(T, r.p) THEN Fail(r.p)
             ELSE FuncParts(T, r.p + 1, [b EXCEPT !.rank = IF @ > rank THEN @ ELSE rank,
                                                  !.loose = @ \/ r.loose \/ a.rank > rank]) IN
       IF IsW(T, p + 1, "export") THEN LET r == Export(T, q) IN put(r, 1, [a EXCEPT !.ex = @ \o r.v])
       ELSE IF IsW(T, p + 1, "import")
       THEN LET r == Import(T, q) IN put(r, 2, [a EXCEPT !.im = r.v, !.loose = @ \/ a.im # <<>>])
       ELSE IF IsW(T, p + 1, "param")  THEN LET r == Param(T, q)  IN put(r, 3, [a EXCEPT !.pa = @ \o r.v])
       ELSE IF IsW(T, p + 1, "result") THEN LET r == ResultList(T, q) IN put(r, 4, [a EXCEPT !.re = @ \o r.v])
       ELSE IF IsW(T, p + 1, "local")
       THEN LET r == Local(T, q)  IN put(r, 5, [a EXCEPT !.lo = @ \o r.v, !.loose = @ \/ a.im # <<>>])
       ELSE LET r == Folded(T, p + 1) IN put(r, 6, [a EXCEPT !.bo = @ \o r.v, !.loose = @ \/ a.im # <<>>])
Func(T, p) == FuncParts(T, AfterId(T, p),
                        [id |-> IdAt(T, p), ex |-> <<>>, im |-> <<>>, pa |-> <<>>, re |-> <<>>, lo |-> <<>>, bo |-> <<>>,
                         rank |-> 0, loose |-> FALSE])

TypeParts(T, p, a) ==
  IF ~Open(T, p) THEN Yes(p, <<L("params", a.pa), L("results", a.re)>>, a.loose)
  ELSE LET r == IF IsW(T, p + 1, "param") THEN Param(T, p + 2)
                ELSE IF IsW(T, p + 1, "result") THEN ResultList(T, p + 2) ELSE Fail(p + 1) IN
       IF r.st # "ok" THEN r
       ELSE IF ~Close(T, r.p) THEN Fail(r.p)
       ELSE TypeParts(T, r.p + 1,
              IF IsW(T, p + 1, "param") THEN [a EXCEPT !.pa = @ \o r.v, !.loose = @ \/ a.re # <<>>]
              ELSE [a EXCEPT !.re = @ \o r.v])
TypeField(T, p) ==
  LET q == AfterId(T, p) IN
  IF ~(Open(T, q) /\ IsW(T, q + 1, "func")) THEN Fail(IF Open(T, q) THEN q + 1 ELSE q)
  ELSE LET r == TypeParts(T, q + 2, [pa |-> <<>>, re |-> <<>>, loose |-> FALSE])
       IN  IF r.st # "ok" THEN r
           ELSE IF ~Close(T, r.p) THEN Fail(r.p)
           ELSE Yes(r.p + 1, <<N("type", IdAt(T, p), <<>>, r.v)>>, r.loose)

Elems(T, p) ==
  IF ~Open(T, p) THEN Yes(p, <<>>, FALSE)
  ELSE IF ~(IsW(T, p + 1, "elem") /\ IsT(T, p + 2, "id") /\ Close(T, p + 3))
  THEN Fail(IF ~IsW(T, p + 1, "elem") THEN p + 1 ELSE IF ~IsT(T, p + 2, "id") THEN p + 2 ELSE p + 3)
  ELSE LET r == Elems(T, p + 4)
       IN  IF r.st # "ok" THEN r ELSE Yes(r.p, <<N("elem", Tk(T, p + 2).s, <<>>, <<>>)>> \o r.v, FALSE)
TableField(T, p) ==
  LET q == AfterId(T, p)
      lim == IF IsT(T, q, "integer") THEN Limits(T, q) ELSE Yes(q, <<NoLimits>>, FALSE) IN
  IF lim.st # "ok" THEN lim
  ELSE IF ~(IsW(T, lim.p, "funcref") \/ IsW(T, lim.p, "externref")) THEN Fail(lim.p)
  ELSE LET r == Elems(T, lim.p + 1)
       IN  IF r.st # "ok" THEN r
           ELSE Yes(r.p, <<N("table", IdAt(T, p), <<>>, lim.v \o <<N("reftype", Tk(T, lim.p).s, <<>>, <<>>), L("elems", r.v)>>)>>,
                    (lim.p > q) = (r.v # <<>>) \/ Len(r.v) > 1)

GlobalField(T, p) ==
  LET q == AfterId(T, p)
      mut == Open(T, q)
      v == IF mut THEN q + 2 ELSE q IN
  IF mut /\ ~IsW(T, q + 1, "mut") THEN Fail(q + 1)
  ELSE IF ~IsVal(T, v) THEN Fail(v)
  ELSE IF mut /\ ~Close(T, v + 1) THEN Fail(v + 1)
  ELSE LET r == Insts(T, IF mut THEN v + 2 ELSE v + 1)
       IN  IF r.st # "ok" THEN r
           ELSE Yes(r.p, <<N("global", IdAt(T, p), <<>>,
                             <<N(IF mut THEN "mut" ELSE "const", Tk(T, v).s, <<>>, <<>>), L("body", r.v)>>)>>,
                    r.loose \/ r.v = <<>>)
MemoryField(T, p) ==
  LET r == Limits(T, AfterId(T, p))
  IN  IF r.st # "ok" THEN r ELSE Yes(r.p, <<N("memory", IdAt(T, p), <<>>, r.v)>>, FALSE)

Fields(T, p, a) ==
  IF ~Open(T, p)
  THEN Yes(p, <<L("module", <<L("funcs", a.fu), L("types", a.ty), L("tables", a.ta), L("globals", a.gl), L("memories", a.me)>>)>>, a.loose)
  ELSE LET q == p + 2
           put(r, b) ==
             IF r.st # "ok" THEN r
             ELSE IF ~Close(T, r.p) THEN Fail(r.p)
             ELSE Fields(T, r.p + 1, [b EXCEPT !.loose = @ \/ r.loose]) IN
       IF IsW(T, p + 1, "func")        THEN LET r == Func(T, q)        IN put(r, [a EXCEPT !.fu = @ \o r.v])
       ELSE IF IsW(T, p + 1, "type")   THEN LET r == TypeField(T, q)   IN put(r, [a EXCEPT !.ty = @ \o r.v])
       ELSE IF IsW(T, p + 1, "table")  THEN LET r == TableField(T, q)  IN put(r, [a EXCEPT !.ta = @ \o r.v])
       ELSE IF IsW(T, p + 1, "global") THEN LET r == GlobalField(T, q) IN put(r, [a EXCEPT !.gl = @ \o r.v])
       ELSE IF IsW(T, p + 1, "memory") THEN LET r == MemoryField(T, q) IN put(r, [a EXCEPT !.me = @ \o r.v])
       ELSE Fail(p + 1)
NoFields == [fu |-> <<>>, ty |-> <<>>, ta |-> <<>>, gl |-> <<>>, me |-> <<>>, loose |-> FALSE]

\* ( module ... ) or ( component ) at p
Wat(T, p) ==
  IF ~Open(T, p) THEN Fail(p)
  ELSE LET r == IF IsT(T, p + 1, "module") THEN Fields(T, p + 2, NoFields)
                ELSE IF IsT(T, p + 1, "component") THEN Yes(p + 2, <<L("component", <<>>)>>, FALSE)
                ELSE Fail(p + 1) IN
       IF r.st # "ok" THEN r ELSE IF ~Close(T, r.p) THEN Fail(r.p) ELSE Yes(r.p + 1, r.v, r.loose)

---- (* comparing *)

RECURSIVE Match(_, _)
\* the tree o has the bits of constants where e has their literals
Match(e, o) ==
  /\ e.k = o.k /\ e.s = o.s /\ Len(e.c) = Len(o.c)
  /\ IF e.k = "inst" /\ e.s \in Consts
     THEN ConstOK(CASE e.s = "i32.const" -> "i32" [] e.s = "i64.const" -> "i64" [] e.s = "f32.const" -> "f32" [] OTHER -> "f64",
                  e.b, [st |-> "ok", b |-> o.b])
     ELSE e.b = o.b
  /\ \A i \in 1..Len(e.c) : Match(e.c[i], o.c[i])
=============================================================================
