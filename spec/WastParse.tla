------------------------------ MODULE WastParse ----------------------------
(* The supported grammar of scripts: modules, components, quoted ones, and
   assertions about them and about invocations.  Trees and results are those
   of WatParse.                                                              *)
EXTENDS WatParse

WatKeyword(T, p) == IsT(T, p, "module") \/ IsT(T, p, "component")

\* ( module quote "..." ), ( component quote "..." ), ( module ... ), ( component )
QuoteWat(T, p) ==
  IF ~Open(T, p) THEN Fail(p)
  ELSE IF ~WatKeyword(T, p + 1) THEN Fail(p + 1)
  ELSE IF IsW(T, p + 2, "quote")
  THEN IF ~IsT(T, p + 3, "string") THEN Fail(p + 3)
       ELSE IF ~Close(T, p + 4) THEN Fail(p + 4)
       ELSE Yes(p + 5, <<N("quote", Tk(T, p + 1).t, StringVal(Tk(T, p + 3)), <<>>)>>, NotUtf8(Tk(T, p + 3)))
  ELSE Wat(T, p)

RECURSIVE Constants(_, _, _)
\* classes of NaNs are only for expected results
Constants(T, p, expected) ==
  IF ~Open(T, p) THEN Yes(p, <<>>, FALSE)
  ELSE IF ~(IsT(T, p + 1, "reserved") /\ Tk(T, p + 1).s \in Consts) THEN Fail(p + 1)
  ELSE IF ~LiteralOK(Tk(T, p + 1).s, Tk(T, p + 2)) THEN Fail(p + 2)
  ELSE IF ~Close(T, p + 3) THEN Fail(p + 3)
  ELSE LET r == Constants(T, p + 4, expected)
       IN  IF r.st # "ok" THEN r
           ELSE Yes(r.p, <<N("inst", Tk(T, p + 1).s, Tk(T, p + 2).w, <<>>)>> \o r.v,
                    \/ r.loose
                    \/ /\ NoUnderscore(Unsigned(Tk(T, p + 2).w)) \in {NanCanonical, NanArithmetic}
                       /\ ~(expected /\ Tk(T, p + 2).w \in {NanCanonical, NanArithmetic}))

\* ( invoke $m? "name" (const)* )
Action(T, p) ==
  LET q == AfterId(T, p + 2) IN
  IF ~Open(T, p) THEN Fail(p)
  ELSE IF ~IsW(T, p + 1, "invoke") THEN Fail(p + 1)
  ELSE IF ~IsT(T, q, "string") THEN Fail(q)
  ELSE LET r == Constants(T, q + 1, FALSE)
       IN  IF r.st # "ok" THEN r
           ELSE IF ~Close(T, r.p) THEN Fail(r.p)
           ELSE Yes(r.p + 1, <<N("invoke", IdAt(T, p + 2), StringVal(Tk(T, q)), r.v)>>, r.loose \/ NotUtf8(Tk(T, q)))

\* what is behind a tree: the failure message and ")"
Failure(T, k, r) ==
  IF r.st # "ok" THEN r
  ELSE IF ~IsT(T, r.p, "string") THEN Fail(r.p)
  ELSE IF ~Close(T, r.p + 1) THEN Fail(r.p + 1)
  ELSE Yes(r.p + 2, <<N(k, "", StringVal(Tk(T, r.p)), r.v)>>, r.loose \/ NotUtf8(Tk(T, r.p)))

Directive(T, p) ==
  IF ~Open(T, p) THEN Fail(p)
  ELSE IF WatKeyword(T, p + 1) THEN QuoteWat(T, p)
  ELSE IF IsW(T, p + 1, "assert_invalid") THEN Failure(T, "assert_invalid", QuoteWat(T, p + 2))
  ELSE IF IsW(T, p + 1, "assert_malformed") THEN Failure(T, "assert_malformed", QuoteWat(T, p + 2))
  ELSE IF IsW(T, p + 1, "assert_trap") THEN Failure(T, "assert_trap", Action(T, p + 2))
  ELSE IF IsW(T, p + 1, "assert_return")
  THEN LET a == Action(T, p + 2) IN
       IF a.st # "ok" THEN a
       ELSE LET r == Constants(T, a.p, TRUE)
            IN  IF r.st # "ok" THEN r
                ELSE IF ~Close(T, r.p) THEN Fail(r.p)
                ELSE Yes(r.p + 1, <<L("assert_return", a.v \o <<L("expected", r.v)>>)>>, a.loose \/ r.loose)
  ELSE Fail(p + 1)

RECURSIVE Script(_, _)
\* directives up to the end
Script(T, p) ==
  IF IsT(T, p, "eof") THEN Yes(p, <<>>, FALSE)
  ELSE LET d == Directive(T, p) IN
       IF d.st # "ok" THEN d
       ELSE LET r == Script(T, d.p) IN IF r.st # "ok" THEN r ELSE Yes(r.p, d.v \o r.v, d.loose \/ r.loose)
=============================================================================
