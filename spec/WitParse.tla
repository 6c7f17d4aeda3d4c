------------------------------ MODULE WitParse -----------------------------
(* The supported grammar of WIT documents, and the syntax tree of a document.

   Trees and results are as in WatParse: a tree is [k, s, b, c], a result is
   [st, p, v, loose].                                                        *)
EXTENDS WitLex, Big

N(k, s, b, c) == [k |-> k, s |-> s, b |-> b, c |-> c]
L(k, c) == N(k, "", <<>>, c)
S(k, s) == N(k, s, <<>>, <<>>)

---- (* tokens *)

Trivia == {"space", "linecomment", "blockcomment"}

\* words in lower or upper case, separated by single hyphens
IsWord(w) == w # <<>> /\ w[1] \in Letters
             /\ ((\A i \in 1..Len(w) : w[i] \notin 65..90) \/ (\A i \in 1..Len(w) : w[i] \notin 97..122))
RECURSIVE KebabFrom(_, _, _)
KebabFrom(w, i, from) == IF i > Len(w) THEN IsWord(SubSeq(w, from, i - 1))
                         ELSE IF w[i] = 45 THEN IsWord(SubSeq(w, from, i - 1)) /\ KebabFrom(w, i + 1, i + 1)
                         ELSE KebabFrom(w, i + 1, from)
IsKebab(w) == KebabFrom(w, 1, 1)

RECURSIVE TokensFrom(_, _, _)
\* at most k tokens from p on and where they end, 0 behind the last; the sign of
\* explicit identifiers is not part of them
TokensFrom(bs, p, k) ==
  IF p = 0 \/ k = 0 THEN [t |-> <<>>, p |-> p]
  ELSE IF k > 1
  THEN LET a == TokensFrom(bs, p, k \div 2)
           b == TokensFrom(bs, a.p, k - k \div 2)
       IN  [t |-> a.t \o b.t, p |-> b.p]
  ELSE LET r == Tok(bs, p) IN
       IF r.st # "ok" THEN [t |-> <<[t |-> r.st, s |-> "", w |-> <<>>]>>, p |-> 0]
       ELSE IF r.t = "eof" THEN [t |-> <<[t |-> "eof", s |-> "", w |-> <<>>]>>, p |-> 0]
       ELSE IF r.t \in Trivia THEN [t |-> <<>>, p |-> p + r.n]
       ELSE LET w == SubSeq(bs, IF r.t = "explicit" THEN p + 1 ELSE p, p + r.n - 1)
            IN  [t |-> <<[t |-> IF r.t = "explicit" THEN "id" ELSE r.t,
                          s |-> IF r.t \in {"id", "explicit"} THEN Str(w) ELSE "", w |-> w]>>,
                 p |-> p + r.n]
Tokens(bs) == TokensFrom(bs, 1, Len(bs) + 1).t
\* the document has a name that is none in WIT
OddName(T) == \E i \in 1..Len(T) : T[i].t = "id" /\ ~IsKebab(T[i].w)

Tk(T, p) == IF p <= Len(T) THEN T[p] ELSE T[Len(T)]
Is(T, p, t) == Tk(T, p).t = t
Id(T, p) == Tk(T, p).s

Fail(p) == [st |-> "err", p |-> p, v |-> <<>>, loose |-> FALSE]
Yes(p, v, loose) == [st |-> "ok", p |-> p, v |-> v, loose |-> loose]

RECURSIVE FirstNot(_, _, _)
\* the first position where the tokens from p on are not of the kinds ks
FirstNot(T, p, ks) == IF ks = <<>> THEN 0
                      ELSE IF ~Is(T, p, Head(ks)) THEN p ELSE FirstNot(T, p + 1, Tail(ks))

---- (* packages and paths *)

RECURSIVE NumberFrom(_, _)
NumberFrom(w, i) == IF i = 0 THEN <<>> ELSE MulAdd(NumberFrom(w, i - 1), 10, w[i] - 48)
Number(w) == Norm(NumberFrom(w, Len(w)))
NumOK(T, p) == Is(T, p, "integer") /\ Cmp(Number(Tk(T, p).w), Pow2(64)) < 0
Num(T, p) == N("number", "", ToBytes(Number(Tk(T, p).w), 8), <<>>)
ZeroLed(T, p) == Len(Tk(T, p).w) > 1 /\ Tk(T, p).w[1] = 48

Version(T, p) ==
  IF ~NumOK(T, p) THEN Fail(p)
  ELSE IF ~Is(T, p + 1, ".") THEN Fail(p + 1)
  ELSE IF ~NumOK(T, p + 2) THEN Fail(p + 2)
  ELSE IF ~Is(T, p + 3, ".") THEN Fail(p + 3)
  ELSE IF ~NumOK(T, p + 4) THEN Fail(p + 4)
  ELSE Yes(p + 5, <<L("version", <<Num(T, p), Num(T, p + 2), Num(T, p + 4)>>)>>,
           ZeroLed(T, p) \/ ZeroLed(T, p + 2) \/ ZeroLed(T, p + 4))
OptVersion(T, p) == IF Is(T, p, "@") THEN Version(T, p + 1) ELSE Yes(p, <<>>, FALSE)

\* namespace, name, version
Package(ns, name, version) == L("package", <<S("namespace", ns), S("name", name)>> \o version)

UsePath(T, p) ==
  IF ~Is(T, p, "id") THEN Fail(p)
  ELSE IF ~Is(T, p + 1, ":") THEN Yes(p + 1, <<S("path", Id(T, p))>>, FALSE)
  ELSE LET bad == FirstNot(T, p + 2, <<"id", "/", "id">>) IN
       IF bad # 0 THEN Fail(bad)
       ELSE LET v == OptVersion(T, p + 5)
            IN  IF v.st # "ok" THEN v
                ELSE Yes(v.p, <<N("path", Id(T, p + 4), <<>>, <<Package(Id(T, p), Id(T, p + 2), v.v)>>)>>, v.loose)

---- (* types *)

Prims == {"u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "char", "bool", "string", "float32", "float64"}

RECURSIVE Type(_, _), Item(_, _, _), Items(_, _, _, _), Func(_, _), Members(_, _, _), Member(_, _, _), Methods(_, _)

\* "< T >"
OneArg(T, p, k) ==
  IF ~Is(T, p, "<") THEN Fail(p)
  ELSE LET r == Type(T, p + 1) IN
       IF r.st # "ok" THEN r ELSE IF ~Is(T, r.p, ">") THEN Fail(r.p) ELSE Yes(r.p + 1, <<L(k, r.v)>>, r.loose)
\* "", "< T >", "< T , Z >", "< _ , Z >"
TwoArgs(T, p, k, first, second) ==
  IF ~Is(T, p, "<") THEN Yes(p, <<L(k, <<L(first, <<>>), L(second, <<>>)>>)>>, FALSE)
  ELSE LET under == Is(T, p + 1, "_")
           a == IF under THEN Yes(p + 2, <<>>, FALSE) ELSE Type(T, p + 1) IN
       IF a.st # "ok" THEN a
       ELSE IF Is(T, a.p, ",")
       THEN LET b == Type(T, a.p + 1)
            IN  IF b.st # "ok" THEN b
                ELSE IF ~Is(T, b.p, ">") THEN Fail(b.p)
                ELSE Yes(b.p + 1, <<L(k, <<L(first, a.v), L(second, b.v)>>)>>, a.loose \/ b.loose)
       ELSE IF under \/ ~Is(T, a.p, ">") THEN Fail(a.p)
       ELSE Yes(a.p + 1, <<L(k, <<L(first, a.v), L(second, <<>>)>>)>>, a.loose)

Type(T, p) ==
  LET t == Tk(T, p).t IN
  IF t \in Prims THEN Yes(p + 1, <<S("prim", t)>>, FALSE)
  ELSE IF t = "id" THEN Yes(p + 1, <<S("named", Id(T, p))>>, FALSE)
  ELSE IF t \in {"list", "option"} THEN OneArg(T, p + 1, t)
  ELSE IF t = "future" THEN IF Is(T, p + 1, "<") THEN OneArg(T, p + 1, t) ELSE Yes(p + 1, <<L(t, <<>>)>>, FALSE)
  ELSE IF t = "result" THEN TwoArgs(T, p + 1, t, "ok", "error")
  ELSE IF t = "stream" THEN TwoArgs(T, p + 1, t, "element", "end")
  ELSE IF t = "tuple"
  THEN IF ~Is(T, p + 1, "<") THEN Fail(p + 1)
       ELSE LET r == Items(T, p + 2, ">", "element")
            IN  IF r.st # "ok" THEN r ELSE Yes(r.p, <<L("tuple", r.v)>>, r.loose \/ r.v = <<>>)
  ELSE IF t \in {"own", "borrow"}
  THEN LET bad == FirstNot(T, p + 1, <<"<", "id", ">">>)
       IN  IF bad # 0 THEN Fail(bad) ELSE Yes(p + 4, <<S(t, Id(T, p + 2))>>, FALSE)
  ELSE Fail(p)

---- (* lists *)

\* id : type
Typed(T, p, k) ==
  IF ~Is(T, p, "id") THEN Fail(p)
  ELSE IF ~Is(T, p + 1, ":") THEN Fail(p + 1)
  ELSE LET r == Type(T, p + 2)
       IN  IF r.st # "ok" THEN r ELSE Yes(r.p, <<N(k, Id(T, p), <<>>, r.v)>>, r.loose)

\* one item of a list of the kind k
Item(T, p, k) ==
  IF k = "element" THEN Type(T, p)
  ELSE IF k \in {"param", "field"} THEN Typed(T, p, k)
  ELSE IF ~Is(T, p, "id") THEN Fail(p)
  ELSE IF k \in {"flag", "enumcase"} THEN Yes(p + 1, <<S(k, Id(T, p))>>, FALSE)
  ELSE IF k = "case"
  THEN IF ~Is(T, p + 1, "(") THEN Yes(p + 1, <<S(k, Id(T, p))>>, FALSE)
       ELSE LET r == Type(T, p + 2)
            IN  IF r.st # "ok" THEN r
                ELSE IF ~Is(T, r.p, ")") THEN Fail(r.p)
                ELSE Yes(r.p + 1, <<N(k, Id(T, p), <<>>, r.v)>>, r.loose)
  ELSE \* "rename", "usename"
       IF ~Is(T, p + 1, "as") THEN IF k = "rename" THEN Fail(p + 1) ELSE Yes(p + 1, <<S(k, Id(T, p))>>, FALSE)
       ELSE IF ~Is(T, p + 2, "id") THEN Fail(p + 2)
       ELSE Yes(p + 3, <<N(k, Id(T, p), <<>>, <<S("as", Id(T, p + 2))>>)>>, FALSE)

\* items separated by commas, a comma behind the last one is allowed
Items(T, p, end, k) ==
  IF Is(T, p, end) THEN Yes(p + 1, <<>>, FALSE)
  ELSE LET r == Item(T, p, k) IN
       IF r.st # "ok" THEN r
       ELSE IF Is(T, r.p, end) THEN Yes(r.p + 1, r.v, r.loose)
       ELSE IF ~Is(T, r.p, ",") THEN Fail(r.p)
       ELSE LET more == Items(T, r.p + 1, end, k)
            IN  IF more.st # "ok" THEN more ELSE Yes(more.p, r.v \o more.v, r.loose \/ more.loose)

---- (* functions *)

Params(T, p) == IF Is(T, p, "(") THEN Items(T, p + 1, ")", "param") ELSE Fail(p)
\* func ( ... ) -> ...
Func(T, p) ==
  IF ~Is(T, p, "func") THEN Fail(p)
  ELSE LET a == Params(T, p + 1) IN
       IF a.st # "ok" THEN a
       ELSE IF ~Is(T, a.p, "->") THEN Yes(a.p, <<L("func", <<L("params", a.v), L("results", <<>>)>>)>>, a.loose)
       ELSE LET named == Is(T, a.p + 1, "(")
                r == IF named THEN Params(T, a.p + 1) ELSE Type(T, a.p + 1)
            IN  IF r.st # "ok" THEN r
                ELSE Yes(r.p, <<L("func", <<L("params", a.v), L(IF named THEN "results" ELSE "result", r.v)>>)>>,
                         a.loose \/ r.loose \/ r.v = <<>>)
Ended(T, r) == IF r.st # "ok" THEN r ELSE IF ~Is(T, r.p, ";") THEN Fail(r.p) ELSE Yes(r.p + 1, r.v, r.loose)
Named(r, k, id) == IF r.st # "ok" THEN r ELSE Yes(r.p, <<N(k, id, <<>>, r.v)>>, r.loose)
\* id : func ... ;
FuncItem(T, p) ==
  IF ~Is(T, p, "id") THEN Fail(p)
  ELSE IF ~Is(T, p + 1, ":") THEN Fail(p + 1)
  ELSE Named(Ended(T, Func(T, p + 2)), "function", Id(T, p))

\* methods of a resource up to "}"
Methods(T, p) ==
  IF Is(T, p, "}") THEN Yes(p + 1, <<>>, FALSE)
  ELSE LET r == IF Is(T, p, "constructor") THEN Named(Ended(T, Params(T, p + 1)), "constructor", "")
                ELSE IF Is(T, p, "id") /\ Is(T, p + 1, ":") /\ Is(T, p + 2, "static")
                THEN Named(Ended(T, Func(T, p + 3)), "static", Id(T, p))
                ELSE LET f == FuncItem(T, p) IN IF f.st # "ok" THEN f ELSE Named(f, "method", Id(T, p)) IN
       IF r.st # "ok" THEN r
       ELSE LET more == Methods(T, r.p)
            IN  IF more.st # "ok" THEN more ELSE Yes(more.p, r.v \o more.v, r.loose \/ more.loose)

---- (* definitions *)

\* keyword id { items }
Braced(T, p, k, item) ==
  LET bad == FirstNot(T, p + 1, <<"id", "{">>) IN
  IF bad # 0 THEN Fail(bad)
  ELSE LET r == Items(T, p + 3, "}", item)
       IN  IF r.st # "ok" THEN r ELSE Yes(r.p, <<N(k, Id(T, p + 1), <<>>, r.v)>>, r.loose \/ r.v = <<>>)
Resource(T, p) ==
  IF ~Is(T, p + 1, "id") THEN Fail(p + 1)
  ELSE LET r == IF Is(T, p + 2, "{") THEN Methods(T, p + 3)
                ELSE IF Is(T, p + 2, ";") THEN Yes(p + 3, <<>>, FALSE) ELSE Yes(p + 2, <<>>, TRUE)
       IN  Named(r, "resource", Id(T, p + 1))
Alias(T, p) ==
  LET bad == FirstNot(T, p + 1, <<"id", "=">>) IN
  IF bad # 0 THEN Fail(bad) ELSE Named(Ended(T, Type(T, p + 3)), "alias", Id(T, p + 1))
Defs == {"resource", "record", "flags", "variant", "enum", "type"}
Def(T, p) ==
  CASE Is(T, p, "resource") -> Resource(T, p)
    [] Is(T, p, "record")  -> Braced(T, p, "record", "field")
    [] Is(T, p, "flags")   -> Braced(T, p, "flags", "flag")
    [] Is(T, p, "variant") -> Braced(T, p, "variant", "case")
    [] Is(T, p, "enum")    -> Braced(T, p, "enum", "enumcase")
    [] OTHER               -> Alias(T, p)

\* use path . { names } ;
Use(T, p) ==
  LET u == UsePath(T, p + 1) IN
  IF u.st # "ok" THEN u
  ELSE LET bad == FirstNot(T, u.p, <<".", "{">>) IN
       IF bad # 0 THEN Fail(bad)
       ELSE LET r == Items(T, u.p + 2, "}", "usename")
            IN  IF r.st # "ok" THEN r
                ELSE Ended(T, Yes(r.p, <<L("use", u.v \o r.v)>>, u.loose \/ r.loose \/ r.v = <<>>))

---- (* interfaces and worlds *)

Extern(T, p) ==
  IF Is(T, p, "id") /\ Is(T, p + 1, ":") /\ Is(T, p + 2, "func")
  THEN Named(Ended(T, Func(T, p + 2)), "function", Id(T, p))
  ELSE IF Is(T, p, "id") /\ Is(T, p + 1, ":") /\ Is(T, p + 2, "interface")
  THEN IF ~Is(T, p + 3, "{") THEN Fail(p + 3) ELSE Named(Members(T, p + 4, "interface"), "interface", Id(T, p))
  ELSE Ended(T, UsePath(T, p))

\* a member of an interface or a world
Member(T, p, of) ==
  IF Tk(T, p).t \in Defs THEN Def(T, p)
  ELSE IF Is(T, p, "use") THEN Use(T, p)
  ELSE IF of = "interface" THEN FuncItem(T, p)
  ELSE IF Is(T, p, "export") \/ Is(T, p, "import") THEN Named(Extern(T, p + 1), Tk(T, p).t, "")
  ELSE IF ~Is(T, p, "include") THEN Fail(p)
  ELSE LET u == UsePath(T, p + 1) IN
       IF u.st # "ok" THEN u
       ELSE IF ~Is(T, u.p, "with") THEN Ended(T, Named(u, "include", ""))
       ELSE IF ~Is(T, u.p + 1, "{") THEN Fail(u.p + 1)
       ELSE LET r == Items(T, u.p + 2, "}", "rename")
            IN  IF r.st # "ok" THEN r ELSE Yes(r.p, <<L("include", u.v \o r.v)>>, u.loose \/ r.loose \/ r.v = <<>>)
\* up to "}"
Members(T, p, of) ==
  IF Is(T, p, "}") THEN Yes(p + 1, <<>>, FALSE)
  ELSE LET r == Member(T, p, of) IN
       IF r.st # "ok" THEN r
       ELSE LET more == Members(T, r.p, of)
            IN  IF more.st # "ok" THEN more ELSE Yes(more.p, r.v \o more.v, r.loose \/ more.loose)

RECURSIVE TopItems(_, _)
TopItems(T, p) ==
  IF Is(T, p, "eof") THEN Yes(p, <<>>, FALSE)
  ELSE LET r ==
         IF Is(T, p, "interface") \/ Is(T, p, "world")
         THEN LET bad == FirstNot(T, p + 1, <<"id", "{">>)
              IN  IF bad # 0 THEN Fail(bad) ELSE Named(Members(T, p + 3, Tk(T, p).t), Tk(T, p).t, Id(T, p + 1))
         ELSE IF Is(T, p, "use")
         THEN LET u == UsePath(T, p + 1)
                  as == u.st = "ok" /\ Is(T, u.p, "as")
                  q == IF as THEN u.p + 2 ELSE u.p
              IN  IF u.st # "ok" THEN u
                  ELSE IF as /\ ~Is(T, u.p + 1, "id") THEN Fail(u.p + 1)
                  ELSE Yes(IF Is(T, q, ";") THEN q + 1 ELSE q,
                           <<L("use", u.v \o (IF as THEN <<S("as", Id(T, u.p + 1))>> ELSE <<>>))>>,
                           u.loose \/ ~Is(T, q, ";"))
         ELSE Fail(p)
       IN IF r.st # "ok" THEN r
          ELSE LET more == TopItems(T, r.p)
               IN  IF more.st # "ok" THEN more ELSE Yes(more.p, r.v \o more.v, r.loose \/ more.loose)

\* package? item*
Document(T) ==
  LET bad == FirstNot(T, 2, <<"id", ":", "id">>)
      v == OptVersion(T, 5)
      pk == IF ~Is(T, 1, "package") THEN Yes(1, <<>>, FALSE)
            ELSE IF bad # 0 THEN Fail(bad)
            ELSE IF v.st # "ok" THEN v
            ELSE Ended(T, Yes(v.p, <<Package(Id(T, 2), Id(T, 4), v.v)>>, v.loose)) IN
  IF pk.st # "ok" THEN pk
  ELSE LET r == TopItems(T, pk.p) IN IF r.st # "ok" THEN r ELSE Yes(r.p, pk.v \o r.v, pk.loose \/ r.loose)
=============================================================================
