------------------------------- MODULE T_ABI -------------------------------
(* Judges recorded uses of the Canonical ABI functions.  Line l of the trace is
   accepted iff ABITypes/ABIMem allow the recorded observation; the first line
   that is not violates the invariant Accepted.                              *)
EXTENDS ABIMem, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

\* ---- starting state of an operation ----
EmptyInst(n) == [me |-> 1, ml |-> 1, h |-> [r \in 1..n |-> EmptyTable]]
RECURSIVE Pre(_, _, _)
Pre(s, pre, j) ==
  IF j > Len(pre) THEN s
  ELSE Pre(AddHandle(s, 1, pre[j].r, OwnHandle(pre[j].rep)), pre, j + 1)
Start(i, o) ==
  Pre([st |-> "ok", mem |-> <<i.mem, <<>>>>, R |-> o.R, k |-> 1,
       ins |-> <<EmptyInst(Len(i.impl)), EmptyInst(Len(i.impl))>>,
       ctx |-> <<NewCtx(1, i.enc)>>, rts |-> i.impl, dt |-> <<>>], i.pre, 1)

HandlesAre(s, h) ==
  \A n \in 1..Len(s.ins) : \A r \in 1..Len(s.rts) : TableIs(s.ins[n].h[r].arr, h[n][r])

\* the observation equals the end state s of a successful operation
Same(s, o) == s.st = "ok" /\ s.k = Len(o.R) + 1 /\ o.mem = s.mem[1] /\ HandlesAre(s, o.h)

\* blocks the allocator actually granted: <<address, size>>
GoodGrant(s, e) == e.ok = 1 /\ e.a > 0 /\ Small(e.p) /\ BytesToNat(e.p) % e.a = 0
                   /\ e.n <= Len(s.mem[1]) /\ BytesToNat(e.p) + e.n <= Len(s.mem[1])
Granted(s, o) == {<<BytesToNat(o.R[j].p), o.R[j].n>> : j \in {x \in 1..Len(o.R) : GoodGrant(s, o.R[x])}}
\* only bytes in the blocks B (set of <<address, size>>) may differ
Contained(before, after, B) ==
  /\ Len(before) = Len(after)
  /\ \A x \in 1..Len(before) :
       before[x] = after[x] \/ \E b \in B : b[1] < x /\ x <= b[1] + b[2]

Failed(o) == o.st \in {"err", "trap"}

\* ---- the operations ----
Layout(i, o) ==
  IF HasLayout(i.t)
  THEN o.st = "ok" /\ o.sst = "ok" /\ o.al = Align(i.t) /\ o.sz = Size(i.t)
  ELSE Failed(o) /\ o.sst \in {"err", "trap"}

Disc(i, o) == LET v == Despec(i.t) IN
  IF NCases(v) > 0 THEN o.st = "ok" /\ o.al = DiscSize(NCases(v)) ELSE Failed(o)

Flat(i, o) ==
  IF HasLayout(i.t)
  THEN /\ o.st = "ok" /\ o.fl = Flatten(i.t)
       /\ o.s2 = "ok" /\ o.fr = <<"i64">> \o Flatten(i.t) \o <<"f32">>
  ELSE Failed(o) /\ o.s2 \in {"err", "trap"}

Sig(i, o) ==
  IF \A ts \in {i.ps, i.rs} : \A j \in 1..Len(ts) : HasLayout(ts[j])
  THEN LET c == CoreSig(i.ps, i.rs, i.dir, i.maxp, i.maxr)
       IN  o.st = "ok" /\ o.fl = c.p /\ o.fr = c.r
  ELSE Failed(o)

\* may [p, p+n) be used for a value of alignment a
Usable(s, p, a, n) == Aligned(p, a) /\ InMem(s, 1, p, n)

StoreOp(i, o) ==
  LET s == Start(i, o)
      ok == Usable(s, i.p, Align(i.t), Size(i.t))
      target == IF ok THEN {<<BytesToNat(i.p), Size(i.t)>>} ELSE {}
  IN IF i.ill = 1 \/ ~ok
     THEN /\ Failed(o)
          /\ Contained(i.mem, o.mem, target \cup Granted(s, o))
     ELSE LET s2 == Store(s, 1, i.t, i.v, BytesToNat(i.p)) IN
          IF Ok(s2)
          THEN /\ o.st = "ok" /\ Same(s2, o)
               /\ LET r == Load(s2, 1, i.t, BytesToNat(i.p))
                  IN  o.s2 = r[1].st /\ (Ok(r[1]) => o.v2 = <<r[2]>>)
          ELSE /\ s2.st # "no" /\ Failed(o) /\ s2.k = Len(o.R) + 1
               /\ Contained(i.mem, o.mem, target \cup Granted(s, o))

LoadOp(i, o) ==
  LET s == Start(i, o) IN
  /\ o.mem = i.mem
  /\ IF ~Usable(s, i.p, Align(i.t), Size(i.t))
     THEN \* the address is the caller's; bytes that are not needed may be missing
          Failed(o) \/ (o.st = "ok" /\ Small(i.p) /\ BytesToNat(i.p) < Len(i.mem))
     ELSE LET r == Load(s, 1, i.t, BytesToNat(i.p))
          IN  o.st = r[1].st /\ (Ok(r[1]) => o.v = <<r[2]>> /\ Same(r[1], o))

LowerOp(i, o) ==
  LET s == Start(i, o)
  IN IF i.ill = 1
     THEN Failed(o) /\ Contained(i.mem, o.mem, Granted(s, o))
     ELSE LET r == Lower(s, 1, i.t, i.v) IN
          IF Ok(r[1])
          THEN /\ o.st = "ok" /\ Same(r[1], o) /\ o.f = r[2]
               /\ KindsMatch(o.f, Flatten(i.t)) /\ Len(o.f) = Len(Flatten(i.t))
               /\ LET b == Lift(r[1], 1, i.t, r[2])
                  IN  o.s2 = b[1].st /\ (Ok(b[1]) => o.v2 = <<b[2]>> /\ o.n = Len(o.f))
          ELSE /\ r[1].st # "no" /\ Failed(o) /\ r[1].k = Len(o.R) + 1
               /\ Contained(i.mem, o.mem, Granted(s, o))

LiftOp(i, o) ==
  LET s == Start(i, o) IN
  /\ o.mem = i.mem
  /\ IF ~KindsMatch(i.f, Flatten(i.t)) THEN Failed(o)
     ELSE LET r == Lift(s, 1, i.t, SubSeq(i.f, 1, Len(Flatten(i.t))))
          IN  /\ o.st = r[1].st
              /\ Ok(r[1]) => o.v = <<r[2]>> /\ Same(r[1], o) /\ o.n = Len(Flatten(i.t))

LowerValsOp(i, o) ==
  LET s == Start(i, o)
      t == SpillType(i.ps)
      spill == Len(FlattenAll(i.ps)) > i.maxp
      target == IF spill /\ i.out # <<>> /\ Usable(s, i.out[1], Align(t), Size(t))
                THEN {<<BytesToNat(i.out[1]), Size(t)>>} ELSE {}
  IN IF i.ill = 1
     THEN Failed(o) /\ Contained(i.mem, o.mem, target \cup Granted(s, o))
     ELSE LET r == LowerValues(s, 1, i.maxp, i.ps, i.vs, i.out) IN
          IF Ok(r[1])
          THEN o.st = "ok" /\ Same(r[1], o) /\ o.f = r[2]
          ELSE /\ r[1].st # "no" /\ Failed(o) /\ r[1].k = Len(o.R) + 1
               /\ Contained(i.mem, o.mem, target \cup Granted(s, o))

LiftValsOp(i, o) ==
  LET s == Start(i, o)
      fl == FlattenAll(i.ps)
      need == IF Len(fl) > i.maxp THEN <<"i32">> ELSE fl
  IN /\ o.mem = i.mem
     /\ IF ~KindsMatch(i.f, need) THEN Failed(o)
        ELSE LET r == LiftValues(s, 1, i.maxp, i.ps, i.f)
             IN  o.st = r[1].st /\ (Ok(r[1]) => o.v = r[2] /\ Same(r[1], o))

EncodeOp(i, o) ==
  IF CanEncode(i.enc, i.str)
  THEN /\ o.st = "ok" /\ o.bs = Encode(i.enc, i.str)
       /\ o.al = EncAlign(i.enc) /\ o.sz = UnitSize(i.enc)
       /\ o.s2 = "ok" /\ o.v2 = << <<i.str, <<>> >> >>
  ELSE Failed(o)

Accept(e) ==
  LET i == e.i o == e.o IN
  CASE o.st \notin {"ok", "trap", "err"} -> FALSE
    [] i.op = "layout" -> Layout(i, o)
    [] i.op = "disc" -> Disc(i, o)
    [] i.op = "flat" -> Flat(i, o)
    [] i.op = "sig" -> Sig(i, o)
    [] i.op = "store" -> StoreOp(i, o)
    [] i.op = "load" -> LoadOp(i, o)
    [] i.op = "lower" -> LowerOp(i, o)
    [] i.op = "lift" -> LiftOp(i, o)
    [] i.op = "lowervals" -> LowerValsOp(i, o)
    [] i.op = "liftvals" -> LiftValsOp(i, o)
    [] i.op = "encode" -> EncodeOp(i, o)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
\* every recorded event is allowed
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
