------------------------------- MODULE Canon -------------------------------
(* Calls between the host and component instances.  On top of ABIMem the state
   has
     s.enc[i]   string encoding of instance i
     s.hook[i]  1 iff instance i has a post-return hook
     s.fr       stack of calls in progress, each
                [k "lift" or "lower", c context, i instance, rs result types,
                 maxr flat limit, ci 1 iff the instance may not be entered
                 meanwhile, rest core arguments not consumed, saved me]
     s.po       lifted calls that returned: [c, i, done]
   Every operation yields <<state, result>>; state.st tells whether it failed. *)
EXTENDS ABIMem

OpenCtx(s, i) == [s EXCEPT !.ctx = Append(@, NewCtx(i, s.enc[i]))]
MayLift(s, j) == s.ins[j].me = 1 /\ s.ins[j].ml = 1
MayLower(s, i) == s.ins[i].ml = 1 /\ s.ins[i].me = 1
Top(s) == s.fr[Len(s.fr)]
Pop(s) == [s EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]

\* a call into instance j: the arguments are lowered while j may not leave
LiftBegin(s, j, ps, rs, maxp, maxr, vs) ==
  LET s1 == [OpenCtx(s, j) EXCEPT !.ins[j].ml = 0]
      c  == Len(s1.ctx)
      r  == LowerValues(s1, c, maxp, ps, vs, <<>>)
  IN  IF ~Ok(r[1]) THEN <<r[1], <<>>>>
      ELSE <<[r[1] EXCEPT !.ins[j].ml = 1,
                          !.fr = Append(@, [k |-> "lift", c |-> c, i |-> j, rs |-> rs, maxr |-> maxr,
                                            ci |-> 0, rest |-> <<>>])], r[2]>>

CoreKinds(ts, max) == LET f == FlattenAll(ts) IN IF Len(f) > max THEN <<"i32">> ELSE f

\* the core function returns f
LiftReturn(s, f) ==
  LET fr == Top(s) IN
  IF ~KindsMatch(f, CoreKinds(fr.rs, fr.maxr)) THEN <<Fail(s, "err"), <<>>>>
  ELSE LET r == LiftValues(s, fr.c, fr.maxr, fr.rs, f) IN
       IF ~Ok(r[1]) THEN <<r[1], <<>>>>
       ELSE <<[Pop(r[1]) EXCEPT !.po = Append(@, [c |-> fr.c, i |-> fr.i, done |-> 0])], r[2]>>

\* the caller of a lifted call is finished with its results
PostDue(s, k) == k \in 1..Len(s.po) /\ s.po[k].done = 0
Post(s, k) ==
  IF ~MayExit(s, s.po[k].c) THEN <<Fail(s, "trap"), <<>>>>
  ELSE <<[Exit(s, s.po[k].c) EXCEPT !.po[k].done = 1], <<>>>>

\* a call out of instance i with core arguments f
LowerBegin(s, i, ps, rs, maxp, maxr, f, ci) ==
  LET s1 == [OpenCtx(s, i) EXCEPT !.ins[i].me = IF ci = 1 THEN 0 ELSE @]
      c  == Len(s1.ctx)
      ks == CoreKinds(ps, maxp)
  IN  IF ~KindsMatch(f, ks) THEN <<Fail(s1, "err"), <<>>>>
      ELSE LET r == LiftValues(s1, c, maxp, ps, f) IN
           IF ~Ok(r[1]) THEN <<r[1], <<>>>>
           ELSE <<[r[1] EXCEPT !.fr = Append(@, [k |-> "lower", c |-> c, i |-> i, rs |-> rs, maxr |-> maxr,
                                                 ci |-> ci, rest |-> SubSeq(f, Len(ks) + 1, Len(f))])], r[2]>>

\* the callee returned vs: they are lowered while the instance may not leave
LowerResults(s, vs) ==
  LET fr == Top(s)
      spill == Len(FlattenAll(fr.rs)) > fr.maxr
      s1 == [s EXCEPT !.ins[fr.i].ml = 0]
  IN  IF spill /\ ~KindsMatch(fr.rest, <<"i32">>) THEN <<Fail(s, "err"), <<>>>>
      ELSE LET r == LowerValues(s1, fr.c, fr.maxr, fr.rs, vs, IF spill THEN <<fr.rest[1][2]>> ELSE <<>>) IN
           IF ~Ok(r[1]) THEN <<r[1], <<>>>>
           ELSE <<[r[1] EXCEPT !.ins[fr.i].ml = 1], r[2]>>
\* ... and the call ends, after the callee's post-return
LowerEnd(s) ==
  LET fr == Top(s) IN
  IF ~MayExit(s, fr.c) THEN <<Fail(s, "trap"), <<>>>>
  ELSE <<[Pop(Exit(s, fr.c)) EXCEPT !.ins[fr.i].me = IF fr.ci = 1 THEN 1 ELSE @], <<>>>>

\* ---- what must always be true between operations ----
\* an instance may not be entered exactly while an import it called runs
EnterOK(s) == \A i \in 1..Len(s.ins) :
  s.ins[i].me = IF \E j \in 1..Len(s.fr) : s.fr[j].k = "lower" /\ s.fr[j].i = i /\ s.fr[j].ci = 1 THEN 0 ELSE 1
LeaveOK(s) == \A i \in 1..Len(s.ins) : s.ins[i].ml = 1
\* loans belong to calls that have not ended
Active(s) == {s.fr[j].c : j \in 1..Len(s.fr)} \cup {s.po[k].c : k \in {x \in 1..Len(s.po) : s.po[x].done = 0}}
LoansOK(s) == \A c \in 1..Len(s.ctx) : c \notin Active(s) => s.ctx[c].len = <<>> /\ s.ctx[c].bc = 0
=============================================================================
