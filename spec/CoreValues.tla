----------------------------- MODULE CoreValues ----------------------------
(* Core values handed out one by one, and views of them through which they are
   read as values of other kinds.

   A value is [k, b]: its kind and its bytes, least significant first.  Source
   0 holds the values; source v > 0 is a view [of, ks] of an earlier source:
   the n-th value taken through it is taken from that source at kind ks[n].  *)
EXTENDS Integers, Sequences

Kinds == {"U32", "U64", "Float32", "Float64"}
Width(k) == IF k \in {"U32", "Float32"} THEN 4 ELSE 8
ZeroOf(k) == [k |-> k, b |-> [i \in 1..Width(k) |-> 0]]

\* a value of kind have can be read at kind want if it was stored in a place
\* that values of both kinds share: as it is, or as its low bits
Readable(have, want) == have = want \/ <<have, want>> \in
  {<<"U32", "Float32">>, <<"U64", "U32">>, <<"U64", "Float32">>, <<"U64", "Float64">>}
ReadAs(x, want) == [k |-> want, b |-> SubSeq(x.b, 1, Width(want))]

\* taken: how many values have been taken from each source, by number + 1
Fresh(views) == [i \in 1..Len(views) + 1 |-> 0]

RECURSIVE Take(_, _, _, _, _)
(* Taking the next value of source v at kind want: [st, x, taken], where st is
   "ok", "err", or "free" where the combination of kinds is not provided for *)
Take(vals, views, taken, v, want) ==
  LET n == taken[v + 1] + 1
      after == [taken EXCEPT ![v + 1] = n]
      none(st) == [st |-> st, x |-> ZeroOf("U32"), taken |-> taken] IN
  IF v = 0
  THEN IF n > Len(vals) THEN none("err")
       ELSE IF vals[n].k # want THEN none("err")
       ELSE [st |-> "ok", x |-> vals[n], taken |-> after]
  ELSE IF n > Len(views[v].ks) THEN none("err")
  ELSE LET have == views[v].ks[n]
           r == Take(vals, views, after, views[v].of, have)
       IN  IF r.st # "ok" THEN r
           ELSE IF Readable(have, want) THEN [r EXCEPT !.x = ReadAs(r.x, want)]
           ELSE none("free")

\* how far any source has come is how many of the values have been taken
Index(taken) == taken[1]
=============================================================================
