------------------------------ MODULE MC_Canon -----------------------------
(* Histories of handle operations and nested calls, exhaustively up to a
   length.  Two instances, resource types 1 and 2 implemented by instances 1
   and 2.  Scene selects which operations the histories are made of:
     "table"  creating, dropping and transferring handles of both types
     "lend"   lending by two calls and borrowing into the other instance
     "own"    ownership moving between the instances and the host
     "calls"  lifted and lowered calls nesting, with attempts that are refused
   Failing operations change nothing, so a history has at most MaxBad of them.
   The histories are printed for the implementation to replay.               *)
EXTENDS Canon, Json, TLC

CONSTANTS Scene, MaxLen, MaxBad, Emits
VARIABLES s, hist, bad

T0 == [me |-> 1, ml |-> 1, h |-> <<EmptyTable, EmptyTable>>]
Empty == [st |-> "ok", mem |-> <<<<>>, <<>>>>, R |-> <<>>, k |-> 1, ins |-> <<T0, T0>>, ctx |-> <<>>, cm |-> <<>>,
          rts |-> <<1, 2>>, nd |-> <<0, 0>>, dt |-> <<>>, enc |-> <<"utf-8", "utf-8">>, hook |-> <<1, 1>>,
          fr |-> <<>>, po |-> <<>>, gone |-> <<>>, host |-> {}, nrep |-> 0]

\* ---- steps ----
Blank == [op |-> "", i |-> 1, r |-> 1, c |-> 0, k |-> 0, ix |-> <<>>, rep |-> <<>>, ps |-> <<>>, rs |-> <<>>,
          maxp |-> 4, maxr |-> 4, vs |-> <<>>, f |-> <<>>, ci |-> 0]
Ix(n) == NatToBytes(n, 4)
Own(r) == [k |-> "own", rt |-> r]
Borrow(r) == [k |-> "borrow", rt |-> r]
NextRep(x) == NatToBytes(x.nrep + 1, 4)
New(x, i, r) == [Blank EXCEPT !.op = "new", !.i = i, !.r = r, !.rep = NextRep(x)]
Rep(i, r, n) == [Blank EXCEPT !.op = "rep", !.i = i, !.r = r, !.ix = Ix(n)]
Drop(i, r, n) == [Blank EXCEPT !.op = "drop", !.i = i, !.r = r, !.ix = Ix(n)]
CtxOf(i) == [Blank EXCEPT !.op = "ctx", !.i = i]
Li(c, t, n) == [Blank EXCEPT !.op = "li", !.c = c, !.ps = <<t>>, !.f = <<I32(Ix(n))>>]
Lo(c, t, rep) == [Blank EXCEPT !.op = "lo", !.c = c, !.ps = <<t>>, !.vs = <<Leaf(rep)>>]
ExitOf(c) == [Blank EXCEPT !.op = "exit", !.c = c]
LiftOf(j, ps, rs, vs) == [Blank EXCEPT !.op = "lift", !.i = j, !.ps = ps, !.rs = rs, !.vs = vs]
LowerOf(i, ps, rs, f, ci) == [Blank EXCEPT !.op = "lower", !.i = i, !.ps = ps, !.rs = rs, !.f = f, !.ci = ci]
RetF(f) == [Blank EXCEPT !.op = "ret", !.f = f]
RetV(vs, k) == [Blank EXCEPT !.op = "ret", !.vs = vs, !.k = k]
PostOf(k) == [Blank EXCEPT !.op = "post", !.k = k]

\* ---- effect of a step: <<outcome, state>>; "end" outcomes finish a history ----
Count(x, st, rep) == IF rep # <<>> /\ rep = NextRep(x) THEN [st EXCEPT !.nrep = @ + 1] ELSE st
Do(x, a) ==
  CASE a.op = "new" -> LET r == ResourceNew(x, a.i, a.r, a.rep) IN <<r[1], Count(x, r[2], a.rep)>>
    [] a.op = "rep" -> LET r == ResourceRep(x, a.i, a.r, a.ix) IN <<r[1], r[2]>>
    [] a.op = "drop" -> LET r == ResourceDrop(x, a.i, a.r, a.ix) IN <<r[1], r[2]>>
    [] a.op = "ctx" -> <<"ok", [OpenCtx(x, a.i) EXCEPT !.cm = Append(@, Len(x.ctx) + 1), !.gone = Append(@, 0)]>>
    [] a.op = "li" -> LET r == Lift(x, x.cm[a.c], a.ps[1], a.f)
                      IN  IF Ok(r[1])
                          THEN <<"ok", IF a.ps[1].k = "own" THEN [r[1] EXCEPT !.host = @ \cup {<<a.ps[1].rt, r[2][1]>>}] ELSE r[1]>>
                          ELSE <<r[1].st, x>>
    [] a.op = "lo" -> LET r == Lower(x, x.cm[a.c], a.ps[1], a.vs[1])
                          y == Count(x, r[1], a.vs[1][1])
                      IN  <<"ok", IF a.ps[1].k = "own" THEN [y EXCEPT !.host = @ \ {<<a.ps[1].rt, a.vs[1][1]>>}] ELSE y>>
    [] a.op = "exit" -> LET r == ExitCall(x, x.cm[a.c])
                        IN  <<r[1], IF r[1] = "ok" THEN [r[2] EXCEPT !.gone[a.c] = 1] ELSE x>>
    [] a.op = "lift" -> IF ~MayLift(x, a.i) THEN <<"trap", x>>
                        ELSE LET r == LiftBegin(x, a.i, a.ps, a.rs, a.maxp, a.maxr, a.vs)
                             IN  <<"ok", IF a.vs = <<>> THEN r[1] ELSE Count(x, r[1], a.vs[1][1])>>
    [] a.op = "lower" -> IF ~MayLower(x, a.i) THEN <<"trap", x>>
                         ELSE LET r == LowerBegin(x, a.i, a.ps, a.rs, a.maxp, a.maxr, a.f, a.ci)
                              IN  IF Ok(r[1]) THEN <<"ok", r[1]>> ELSE <<"end", x>>
    [] a.op = "ret" /\ Top(x).k = "lift" -> LET r == LiftReturn(x, a.f) IN IF Ok(r[1]) THEN <<"ok", r[1]>> ELSE <<"end", x>>
    [] a.op = "ret" /\ Top(x).k = "lower" ->
         LET r1 == LowerResults(x, a.vs)
             r2 == IF Ok(r1[1]) /\ a.k > 0 THEN Post(r1[1], a.k) ELSE r1
             r3 == IF Ok(r2[1]) THEN LowerEnd(r2[1]) ELSE r2
         IN  IF Ok(r3[1]) THEN <<"ok", IF a.vs = <<>> THEN r3[1] ELSE Count(x, r3[1], a.vs[1][1])>> ELSE <<"end", x>>
    [] a.op = "post" -> LET r == Post(x, a.k) IN <<"ok", r[1]>>

\* ---- the histories ----
Live1(x, i, r) == Len(x.ins[i].h[r].arr)
Nums(x, i, r) == 0..Live1(x, i, r)                  \* every number in use or used, and one beyond
Open(x) == {c \in 1..Len(x.cm) : x.gone[c] = 0}
InstOfC(x, c) == x.ctx[x.cm[c]].inst
DuePosts(x) == {k \in 1..Len(x.po) : x.po[k].done = 0 /\ MayExit(x, x.po[k].c)}

Prefix ==
  CASE Scene = "table" -> <<CtxOf(1), New(Empty, 1, 1)>>
    [] Scene = "lend" -> <<CtxOf(1), CtxOf(1), CtxOf(2), New(Empty, 1, 1)>>
    [] Scene = "own" -> <<CtxOf(1), CtxOf(2), New(Empty, 1, 1)>>
    [] Scene = "calls" -> <<New(Empty, 1, 1)>>

Acts(x) ==
  CASE Scene = "table" ->
         {New(x, 1, 1), New(x, 1, 2), New(x, 2, 1)} \cup {Drop(1, 1, n) : n \in Nums(x, 1, 1)}
         \cup {Drop(1, 2, n) : n \in Nums(x, 1, 2)} \cup {Drop(2, 1, n) : n \in Nums(x, 2, 1)}
         \cup {Li(1, Own(1), n) : n \in Nums(x, 1, 1)} \cup {Rep(1, 1, n) : n \in {Live1(x, 1, 1)}}
         \cup {Lo(1, Own(1), NextRep(x)), Lo(1, Borrow(2), NextRep(x))}
    [] Scene = "lend" ->
         {New(x, 1, 1)} \cup {Drop(1, 1, n) : n \in Nums(x, 1, 1)}
         \cup {Li(c, Borrow(1), n) : c \in Open(x), n \in Nums(x, 1, 1)}
         \cup {Li(c, Own(1), n) : c \in Open(x) \ {2}, n \in Nums(x, 1, 1)}
         \cup {Lo(c, Borrow(1), <<1, 0, 0, 0>>) : c \in Open(x) \cap {3}}
         \cup {Drop(2, 1, n) : n \in Nums(x, 2, 1)} \cup {ExitOf(c) : c \in Open(x)}
    [] Scene = "own" ->
         {New(x, 2, 1), New(x, 2, 2)} \cup {Drop(i, r, n) : i \in {1, 2}, r \in {1, 2}, n \in 0..1}
         \cup {Li(c, Own(r), n) : c \in {1, 2}, r \in {1, 2}, n \in 0..1}
         \cup {Lo(c, Own(h[1]), h[2]) : c \in {1, 2}, h \in x.host}
         \cup {Lo(2, Borrow(1), <<1, 0, 0, 0>>)}
         \cup (IF x.fr = <<>> THEN {LowerOf(i, <<>>, <<>>, <<>>, 1) : i \in {1, 2}} ELSE {RetV(<<>>, 0)})
    [] Scene = "calls" ->
         {LiftOf(j, <<>>, <<Own(1)>>, <<>>) : j \in {1, 2}} \cup {LiftOf(2, <<Borrow(1)>>, <<>>, <<Leaf(<<9, 0, 0, 0>>)>>)}
         \cup {LiftOf(j, <<>>, <<>>, <<>>) : j \in {1, 2}}
         \cup {LowerOf(1, <<Borrow(1)>>, <<>>, <<I32(Ix(0))>>, ci) : ci \in {0, 1}}
         \cup {LowerOf(i, <<>>, <<>>, <<>>, 1) : i \in {1, 2}}
         \cup {LowerOf(1, <<>>, <<Own(1)>>, <<>>, 0)}
         \cup (IF x.fr = <<>> THEN {}
               ELSE IF Top(x).k = "lift"
               THEN {RetF(IF Top(x).rs = <<>> THEN <<>> ELSE <<I32(Ix(0))>>)} \cup {Drop(2, 1, 0)}
               ELSE {RetV(IF Top(x).rs = <<>> THEN <<>> ELSE <<Leaf(NextRep(x))>>, k) : k \in {0} \cup DuePosts(x)})
         \cup {PostOf(k) : k \in DuePosts(x)} \cup {Drop(1, 1, 0)}

RECURSIVE Steps(_, _)
Steps(x, as) == IF as = <<>> THEN x ELSE Steps(Do(x, Head(as))[2], Tail(as))

Init == s = Steps(Empty, Prefix) /\ hist = Prefix /\ bad = 0
Next ==
  /\ Len(hist) - Len(Prefix) < MaxLen /\ bad < 100
  /\ \E a \in Acts(s) :
       LET r == Do(s, a) IN
       /\ r[1] = "ok" \/ bad < MaxBad
       /\ s' = r[2] /\ hist' = Append(hist, a)
       /\ bad' = IF r[1] = "ok" THEN bad ELSE IF r[1] = "trap" THEN bad + 1 ELSE 100
Spec == Init /\ [][Next]_<<s, hist, bad>>
\* without the history: for exploring further than histories can be printed
View == <<s, bad, Len(hist)>>

\* ---- laws ----
Reps(x, r) == {<<i, n>> \in {1, 2} \X (0..10) : n \in Slots(x.ins[i].h[r]) /\ x.ins[i].h[r].arr[n + 1][1].own = 1}
RepOf(x, r, p) == x.ins[p[1]].h[r].arr[p[2] + 1][1].rep
\* a resource is owned once, and not owned any more once destroyed or with the host
Linear == Scene \in {"table", "own"} =>
  \A r \in {1, 2} :
    /\ \A p, q \in Reps(s, r) : RepOf(s, r, p) = RepOf(s, r, q) => p = q
    /\ \A p \in Reps(s, r) : /\ <<r, RepOf(s, r, p)>> \notin s.host
                            /\ \A j \in 1..Len(s.dt) : s.dt[j] # << <<r>>, RepOf(s, r, p)>>
    /\ \A j, k \in 1..Len(s.dt) : s.dt[j] = s.dt[k] => j = k
Laws == bad < 100 => TablesOK(s) /\ BorrowCountsOK(s) /\ EnterOK(s) /\ LeaveOK(s) /\ Linear
        /\ \A i \in {1, 2}, r \in {1, 2} : \A n \in Slots(s.ins[i].h[r]) : s.ins[i].h[r].arr[n + 1][1].lend >= 0
Emit == (Emits /\ (Len(hist) - Len(Prefix) = MaxLen \/ bad = 100)) => PrintT(ToJson([steps |-> hist]))
=============================================================================
