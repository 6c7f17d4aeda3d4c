------------------------------ MODULE MC_Cross -----------------------------
(* A component calls another: instance 1 lowers a call whose callee is the
   lifted call into instance 2.  For every signature, encodings and flat limits
   of the universe the arguments that reach the core function of instance 2 and
   the results that reach instance 1 mean what was sent.  The calls are printed
   for the implementation to make.                                           *)
EXTENDS Canon, Universe

CONSTANTS Wide, Pairs
VARIABLES ps, rs, encs, lim, j

Base == {P("u8"), P("u64"), P("f32"), P("string"), ListOf(P("u16")), RecordOf(<<P("u8"), P("string")>>), OptionOf(P("string")),
         ResultOf(<<P("u64")>>, <<P("f32")>>)}
Seqs(n, B) == UNION {[1..m -> B] : m \in 0..n}
Few == {P("u8"), P("string"), P("f64"), ListOf(P("string"))}
Encs == {"utf-8", "utf-16", "latin1+utf16"}
Init == /\ ps \in Seqs(IF Wide THEN 2 ELSE 1, Base) \cup {<<P("u8"), P("string"), P("f32")>>}
        /\ rs \in Seqs(1, Few) \cup {<<P("u8"), P("u64")>>, <<P("string"), P("u8")>>}
        /\ encs \in IF Pairs THEN Encs \X Encs ELSE {<<"utf-8", "utf-16">>, <<"latin1+utf16", "utf-8">>, <<"utf-16", "latin1+utf16">>}
        /\ lim \in {<<16, 1, 16, 1>>, <<1, 1, 16, 1>>, <<16, 1, 1, 16>>, <<1, 16, 1, 0>>} /\ j \in IF Wide THEN 1..2 ELSE 1..3
Next == FALSE /\ UNCHANGED <<ps, rs, encs, lim, j>>
Spec == Init /\ [][Next]_<<ps, rs, encs, lim, j>>

MemSize == 768
\* the allocators hand out blocks of 64 bytes
R == [i \in 1..40 |-> [a |-> -1, n |-> -1, o |-> 1, ok |-> 1, p |-> NatToBytes(64 * (1 + ((i - 1) % 11)), 4)]]
I0 == [me |-> 1, ml |-> 1, h |-> <<EmptyTable, EmptyTable>>]
S0 == [st |-> "ok", mem |-> <<Pattern(MemSize), Pattern(MemSize)>>, R |-> R, k |-> 1, ins |-> <<I0, I0>>, ctx |-> <<>>,
       rts |-> <<1, 2>>, nd |-> <<0, 0>>, dt |-> <<>>, enc |-> encs, hook |-> <<1, 1>>, fr |-> <<>>, po |-> <<>>]
Samples(ts, d) == [i \in 1..Len(ts) |-> Sample(ts[i], i + j + d)]
Norms(ts, vs) == [i \in 1..Len(ts) |-> Norm(ts[i], vs[i])]
PutIn(s, i, ts, vs, max) == LET s1 == OpenCtx(s, i) IN LowerValues(s1, Len(s1.ctx), max, ts, vs, <<>>)
\* what core values f mean to instance i
Meaning(s, i, ts, f, max) == LET s1 == OpenCtx(s, i) IN LiftValues(s1, Len(s1.ctx), max, ts, f)

Laws ==
  LET args == Samples(ps, 0)
      res == Samples(rs, 7)
      p1 == PutIn(S0, 1, ps, args, lim[1])
      spill == Len(FlattenAll(rs)) > lim[2]
      f == p1[2] \o (IF spill THEN <<I32(<<0, 0, 0, 0>>)>> ELSE <<>>)
      b1 == LowerBegin(p1[1], 1, ps, rs, lim[1], lim[2], f, 1)
      b2 == LiftBegin(b1[1], 2, ps, rs, lim[3], lim[4], b1[2])
      m2 == Meaning(b2[1], 2, ps, b2[2], lim[3])
      p2 == PutIn(b2[1], 2, rs, res, lim[4])
      e2 == LiftReturn(p2[1], p2[2])
      r1 == LowerResults(e2[1], e2[2])
      q  == Post(r1[1], 1)
      e1 == LowerEnd(q[1])
      m1 == Meaning(e1[1], 1, rs, IF spill THEN <<I32(<<0, 0, 0, 0>>)>> ELSE r1[2], lim[2])
  IN  /\ Ok(b1[1]) /\ b1[2] = Norms(ps, args)
      /\ Ok(b2[1]) /\ b2[1].ins[1].me = 0 /\ b2[1].ins[2].me = 1
      /\ KindsMatch(b2[2], CoreKinds(ps, lim[3])) /\ Len(b2[2]) = Len(CoreKinds(ps, lim[3]))
      /\ Ok(m2[1]) /\ m2[2] = Norms(ps, args)
      /\ Ok(e2[1]) /\ e2[2] = Norms(rs, res)
      /\ Ok(e1[1]) /\ EnterOK(e1[1]) /\ LeaveOK(e1[1]) /\ e1[1].fr = <<>>
      /\ Len(r1[2]) = IF spill THEN 0 ELSE Len(FlattenAll(rs))
      /\ Ok(m1[1]) /\ m1[2] = Norms(rs, res)

\* c = 1: with what the step before left (core values put, values received)
Blank == [op |-> "", i |-> 1, c |-> 1, k |-> 0, ps |-> ps, rs |-> rs, maxp |-> 0, maxr |-> 0, vs |-> <<>>, ci |-> 1]
Emit == Behaviour([enc |-> encs, msz |-> <<1024, 1024>>, hook |-> <<1, 1>>, steps |->
  << [Blank EXCEPT !.op = "put", !.vs = Samples(ps, 0), !.maxp = lim[1]],
     [Blank EXCEPT !.op = "lower", !.maxp = lim[1], !.maxr = lim[2]],
     [Blank EXCEPT !.op = "lift", !.i = 2, !.maxp = lim[3], !.maxr = lim[4]],
     [Blank EXCEPT !.op = "put", !.i = 2, !.ps = rs, !.vs = Samples(rs, 7), !.maxp = lim[4]],
     [Blank EXCEPT !.op = "ret"],
     [Blank EXCEPT !.op = "ret", !.k = 1] >>])
=============================================================================
