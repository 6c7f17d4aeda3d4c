------------------------------ MODULE Handles ------------------------------
(* Resource handle tables of component instances, lending and borrowing.

   The state s is a record shared with the modules built on this one:
     s.ins[i]   instance i: me (may be entered), ml (may leave) as 0/1,
                h[r] the table of resource type r: arr (slots, each <<>> or
                <<handle>>), free (stack of freed slot numbers)
     s.ctx[c]   call context c: inst, enc, bc (borrowed handles lowered and not
                yet dropped), len (handles lent for this call, with repetition)
     s.rts[r]   the instance implementing resource type r
     s.nd[r]    1 iff resource type r has no destructor
     s.dt       destructor calls so far: sequence of << <<r>>, rep>>
   A handle is [rep, own, lend, sc]: representation bytes, 0/1, outstanding
   loans, the call context a borrowed handle belongs to (0 for owned ones).
   Handle numbers are 4-byte sequences when they come from a guest.          *)
EXTENDS Bytes, FiniteSets

EmptyTable == [arr |-> <<>>, free |-> <<>>]
OwnHandle(rep) == [rep |-> rep, own |-> 1, lend |-> 0, sc |-> 0]
BorrowHandle(rep, c) == [rep |-> rep, own |-> 0, lend |-> 0, sc |-> c]

NewCtx(i, enc) == [inst |-> i, enc |-> enc, bc |-> 0, len |-> <<>>]

\* slot number ix (a natural) of table tab holds a live handle
LiveSlot(tab, ix) == ix < Len(tab.arr) /\ tab.arr[ix + 1] # <<>>
\* ... ix as guest bytes
Live(s, i, r, ix) == Small(ix) /\ LiveSlot(s.ins[i].h[r], BytesToNat(ix))
HandleAt(s, i, r, ix) == s.ins[i].h[r].arr[BytesToNat(ix) + 1][1]

\* the slot a new handle gets: the most recently freed one, else a new one
NextSlot(tab) == IF tab.free # <<>> THEN tab.free[Len(tab.free)] ELSE Len(tab.arr)

AddHandle(s, i, r, e) ==
  LET tab == s.ins[i].h[r]
      ix  == NextSlot(tab)
      t2  == IF tab.free # <<>>
             THEN [arr |-> [tab.arr EXCEPT ![ix + 1] = <<e>>],
                   free |-> SubSeq(tab.free, 1, Len(tab.free) - 1)]
             ELSE [tab EXCEPT !.arr = Append(@, <<e>>)]
      s2  == [s EXCEPT !.ins[i].h[r] = t2]
  IN  IF e.sc = 0 THEN s2 ELSE [s2 EXCEPT !.ctx[e.sc].bc = @ + 1]

\* removable: live and not lent
Removable(s, i, r, ix) == Live(s, i, r, ix) /\ HandleAt(s, i, r, ix).lend = 0

RemoveHandle(s, i, r, ix) ==
  LET n  == BytesToNat(ix)
      e  == HandleAt(s, i, r, ix)
      s2 == [s EXCEPT !.ins[i].h[r].arr[n + 1] = <<>>,
                      !.ins[i].h[r].free = Append(@, n)]
  IN  IF e.sc = 0 THEN s2 ELSE [s2 EXCEPT !.ctx[e.sc].bc = @ - 1]

\* lend the live handle ix of instance i to call c
Lend(s, c, i, r, ix) ==
  LET n == BytesToNat(ix)
      e == HandleAt(s, i, r, ix)
  IN  [s EXCEPT !.ins[i].h[r].arr[n + 1] = <<[e EXCEPT !.lend = @ + 1]>>,
                !.ctx[c].len = Append(@, <<i, r, n>>)]

RECURSIVE Unlend(_, _, _)
Unlend(s, l, j) ==
  IF j > Len(l) THEN s
  ELSE LET i == l[j][1] r == l[j][2] n == l[j][3]
           e == s.ins[i].h[r].arr[n + 1][1]
       IN  Unlend([s EXCEPT !.ins[i].h[r].arr[n + 1] = <<[e EXCEPT !.lend = @ - 1]>>], l, j + 1)

MayExit(s, c) == s.ctx[c].bc = 0
\* the loans are returned; the context is spent
Exit(s, c) == [Unlend(s, s.ctx[c].len, 1) EXCEPT !.ctx[c].len = <<>>]

\* ---- canonical built-ins: each is <<outcome, state', result>> ----
ResourceNew(s, i, r, rep) ==
  <<"ok", AddHandle(s, i, r, OwnHandle(rep)), NatToBytes(NextSlot(s.ins[i].h[r]), 4)>>
ResourceRep(s, i, r, ix) ==
  IF Live(s, i, r, ix) THEN <<"ok", s, HandleAt(s, i, r, ix).rep>> ELSE <<"trap", s, <<>>>>
\* dropping an owned handle runs the destructor, which enters the implementing
\* instance; "dead" means a trap after which the handle is gone
ResourceDrop(s, i, r, ix) ==
  IF ~Removable(s, i, r, ix) THEN <<"trap", s, <<>>>>
  ELSE LET e  == HandleAt(s, i, r, ix)
           s2 == RemoveHandle(s, i, r, ix)
       IN  IF e.own = 0 THEN <<"ok", s2, <<>>>>
           ELSE IF s.rts[r] # i /\ s.ins[s.rts[r]].me = 0 THEN <<"dead", s2, <<>>>>
           ELSE IF s.nd[r] = 1 THEN <<"ok", s2, <<>>>>
           ELSE <<"ok", [s2 EXCEPT !.dt = Append(@, << <<r>>, e.rep>>)], <<>>>>

\* ---- lifting and lowering of handles in call c ----
LiftOwn(s, c, r, ix) ==
  LET i == s.ctx[c].inst IN
  IF Removable(s, i, r, ix) /\ HandleAt(s, i, r, ix).own = 1
  THEN <<"ok", RemoveHandle(s, i, r, ix), HandleAt(s, i, r, ix).rep>>
  ELSE <<"trap", s, <<>>>>
LiftBorrow(s, c, r, ix) ==
  LET i == s.ctx[c].inst IN
  IF Live(s, i, r, ix)
  THEN <<"ok", Lend(s, c, i, r, ix), HandleAt(s, i, r, ix).rep>>
  ELSE <<"trap", s, <<>>>>
LowerOwn(s, c, r, rep) ==
  LET i == s.ctx[c].inst IN
  <<"ok", AddHandle(s, i, r, OwnHandle(rep)), NatToBytes(NextSlot(s.ins[i].h[r]), 4)>>
LowerBorrow(s, c, r, rep) ==
  LET i == s.ctx[c].inst IN
  IF s.rts[r] = i THEN <<"ok", s, rep>>
  ELSE <<"ok", AddHandle(s, i, r, BorrowHandle(rep, c)), NatToBytes(NextSlot(s.ins[i].h[r]), 4)>>
ExitCall(s, c) == IF MayExit(s, c) THEN <<"ok", Exit(s, c), <<>>>> ELSE <<"trap", s, <<>>>>

\* ---- slot m as recorded: x, with -1 for what could not be seen ----
SlotIs(m, x) ==
  /\ Len(m) = Len(x)
  /\ Len(m) = 1 => /\ m[1].rep = x[1].rep /\ x[1].own \in {-1, m[1].own}
                   /\ x[1].lend \in {-1, m[1].lend} /\ x[1].sc \in {-1, m[1].sc}
TableIs(arr, x) == Len(x) = Len(arr) /\ \A j \in 1..Len(arr) : SlotIs(arr[j], x[j])

\* ---- what must always be true of s ----
Slots(tab) == {ix \in 0..(Len(tab.arr) - 1) : tab.arr[ix + 1] # <<>>}
FreeIsComplement(tab) ==
  /\ \A j, k \in 1..Len(tab.free) : tab.free[j] = tab.free[k] => j = k
  /\ {tab.free[j] : j \in 1..Len(tab.free)} = (0..(Len(tab.arr) - 1)) \ Slots(tab)
LoansOf(s, i, r, n) ==
  LET per(c) == Len(SelectSeq(s.ctx[c].len, LAMBDA x : x = <<i, r, n>>))
      RECURSIVE sum(_)
      sum(c) == IF c = 0 THEN 0 ELSE per(c) + sum(c - 1)
  IN  sum(Len(s.ctx))
BorrowsOf(s, c) ==
  LET all == UNION {{<<i, r, n>> : n \in {m \in Slots(s.ins[i].h[r]) :
                        s.ins[i].h[r].arr[m + 1][1].sc = c}} :
                    i \in {s.ctx[c].inst}, r \in 1..Len(s.rts)}
  IN  Cardinality(all)
TablesOK(s) == \A i \in 1..Len(s.ins) : \A r \in 1..Len(s.rts) :
  LET tab == s.ins[i].h[r] IN
  /\ FreeIsComplement(tab)
  /\ \A n \in Slots(tab) :
       LET e == tab.arr[n + 1][1] IN
       /\ e.lend = LoansOf(s, i, r, n)
       /\ e.own = 1 <=> e.sc = 0
BorrowCountsOK(s) == \A c \in 1..Len(s.ctx) : s.ctx[c].bc = BorrowsOf(s, c)
=============================================================================
