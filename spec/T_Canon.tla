------------------------------ MODULE T_Canon ------------------------------
(* Judges recorded sessions.  A line holds the events of one session in order:
   operations on handles, calls beginning and ending, callees being entered,
   post-return hooks running.  The events are folded over the state of Canon;
   a session is accepted iff every event is one Canon allows.

   While a session is replayed the state also has
     s.exp    what must come next: "" (anything), "callee", "hook", "done",
              "refuse" (the call may not start), "fail" (it cannot succeed),
              "over" (nothing)
     s.val    the core values or values that event must show
     s.ex2    kind of the call that is about to be refused
     s.pk     post-return obligation handed to the call that is returning
     s.po1    1 iff the host runs a post-return itself
     s.cm     numbers of the contexts made by the session itself
     s.om     the memories as last recorded
     s.asp    the property the session is judged by                          *)
EXTENDS Canon, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

EmptyInst(n) == [me |-> 1, ml |-> 1, h |-> [r \in 1..n |-> EmptyTable]]
\* initial memory of instance n
Mem0(i, n) == [j \in 1..i.msz[n] |-> (7 * (j - 1) + 2 + n) % 256]
Mems0(i) == [n \in 1..Len(i.msz) |-> Mem0(i, n)]
Start(i, o) ==
  [st |-> "ok", mem |-> Mems0(i), R |-> o.R, k |-> 1,
   ins |-> [x \in 1..Len(i.msz) |-> EmptyInst(Len(i.impl))],
   ctx |-> <<>>, cm |-> <<>>, rts |-> i.impl, nd |-> i.nd, dt |-> <<>>, asp |-> i.asp, om |-> Mems0(i), enc |-> i.enc, hook |-> i.hook,
   fr |-> <<>>, po |-> <<>>, exp |-> "", val |-> <<>>, ex2 |-> "", pk |-> 0, po1 |-> 0]

No(s) == [s EXCEPT !.st = "no"]
Failed(e) == e.st \in {"err", "trap"}

\* What a session is judged by depends on its property: each looks at the part
\* of the instances' state it speaks about.
Sees(s, what) ==
  CASE what = "flags" -> s.asp = "C04"
    [] what = "lend" -> s.asp = "C02"
    [] what = "dtor" -> s.asp = "C03"
    [] what = "own" -> s.asp \in {"C01", "C02", "C03"}
    [] what = "tables" -> s.asp \in {"C01", "C02", "C03"}
    [] what = "mem" -> s.asp \in {"C04", "C12"}

Part(s, x) == [j \in 1..Len(x) |-> [x[j] EXCEPT !.sc = -1, !.own = IF Sees(s, "own") THEN @ ELSE -1,
                                                !.lend = IF Sees(s, "lend") THEN @ ELSE -1]]
TablesAre(s, h) ==
  \A n \in 1..Len(s.ins) : \A r \in 1..Len(s.rts) :
    LET a == s.ins[n].h[r].arr IN
    /\ Len(h[n][r]) = Len(a)
    /\ \A x \in 1..Len(a) : SlotIs(a[x], Part(s, h[n][r][x]))
\* a memory is recorded only when it differs from its last recording
MemIs(s, m) == \A n \in 1..Len(s.mem) : IF m[n] = <<>> THEN s.mem[n] = s.om[n] ELSE s.mem[n] = m[n]
Same(s, ob) ==
  /\ Sees(s, "flags") => \A n \in 1..Len(s.ins) : ob.me[n] = s.ins[n].me /\ ob.ml[n] = s.ins[n].ml
  /\ Sees(s, "tables") => TablesAre(s, ob.h)
  /\ Sees(s, "dtor") => ob.dt = s.dt
  /\ Sees(s, "mem") => MemIs(s, ob.mem)
  /\ ob.nr = s.k - 1
\* s after an event that recorded the memories
Seen(s) == [s EXCEPT !.om = s.mem]

\* the allocator calls k1..k2-1 were made in instance i while it could not leave,
\* and every attempt made from them to call out or in was refused
AllocsOK(s, i, k1, k2) ==
  \A j \in k1..(k2 - 1) :
    LET e == s.R[j] IN
    /\ e.i = i
    /\ Sees(s, "flags") => e.ml = 0
    /\ Sees(s, "flags") /\ e.att # "" => e.att = "trap" /\ e.ati \in {"trap", "err"} /\ e.ran = 0

Step(s, e) ==
  CASE e.op = "new" ->
         LET r == ResourceNew(s, e.i, e.r, e.rep)
         IN  IF s.exp = "" /\ e.st = "ok" /\ e.ix = r[3] /\ Same(r[2], e.ob) THEN r[2] ELSE No(s)
    [] e.op = "rep" ->
         LET r == ResourceRep(s, e.i, e.r, e.ix)
         IN  IF s.exp = "" /\ e.st = r[1] /\ (r[1] = "ok" => e.rep = r[3]) /\ Same(s, e.ob) THEN s ELSE No(s)
    [] e.op = "drop" ->
         LET r == ResourceDrop(s, e.i, e.r, e.ix) IN
         IF s.exp # "" THEN No(s)
         ELSE IF r[1] = "dead"    \* the handle may or may not be gone
              THEN IF e.st = "trap" /\ e.ob.dt = s.dt THEN [s EXCEPT !.exp = "over"] ELSE No(s)
              ELSE IF e.st = r[1] /\ Same(r[2], e.ob) THEN r[2] ELSE No(s)
    \* handles lifted and lowered one by one in contexts of the session
    [] e.op = "ctx" -> IF s.exp = "" THEN [OpenCtx(s, e.i) EXCEPT !.cm = Append(@, Len(s.ctx) + 1)] ELSE No(s)
    [] e.op = "li" ->
         LET r == Lift(s, s.cm[e.c], e.ps[1], e.f) IN
         IF s.exp # "" \/ e.st # r[1].st THEN No(s)
         ELSE IF Ok(r[1]) THEN IF e.vs = <<r[2]>> /\ Same(r[1], e.ob) THEN r[1] ELSE No(s)
         ELSE IF Same(s, e.ob) THEN s ELSE No(s)
    [] e.op = "lo" ->
         LET r == Lower(s, s.cm[e.c], e.ps[1], e.vs[1]) IN
         IF s.exp = "" /\ e.st = "ok" /\ e.f = r[2] /\ Same(r[1], e.ob) THEN r[1] ELSE No(s)
    [] e.op = "exit" ->
         LET r == ExitCall(s, s.cm[e.c]) IN
         IF s.exp = "" /\ e.st = r[1] /\ Same(r[2], e.ob) THEN r[2] ELSE No(s)
    [] e.op = "put" ->          \* values lowered into an instance outside any call
         LET s1 == OpenCtx(s, e.i)
             r  == LowerValues(s1, Len(s1.ctx), e.maxp, e.ps, e.vs, <<>>)
         IN  IF s.exp # "" THEN No(s)
             ELSE IF Ok(r[1]) THEN IF e.st = "ok" /\ e.f = r[2] /\ Same(r[1], e.ob) THEN r[1] ELSE No(s)
             ELSE IF r[1].st # "no" /\ Failed(e) THEN [s EXCEPT !.exp = "over"] ELSE No(s)
    [] e.op = "lift" ->
         IF s.exp # "" THEN No(s)
         ELSE IF ~MayLift(s, e.i) THEN [s EXCEPT !.exp = "refuse", !.ex2 = IF s.ins[e.i].me = 0 THEN "trap" ELSE ""]
         ELSE LET r == LiftBegin(s, e.i, e.ps, e.rs, e.maxp, e.maxr, e.vs) IN
              IF r[1].st = "no" \/ ~AllocsOK(s, e.i, s.k, r[1].k) THEN No(s)
              ELSE IF Ok(r[1]) THEN [r[1] EXCEPT !.exp = "callee", !.val = r[2]]
              ELSE [s EXCEPT !.exp = "fail"]
    [] e.op = "lower" ->
         IF s.exp # "" THEN No(s)
         ELSE IF ~MayLower(s, e.i) THEN [s EXCEPT !.exp = "refuse", !.ex2 = IF s.ins[e.i].ml = 0 THEN "trap" ELSE ""]
         ELSE LET r == LowerBegin(s, e.i, e.ps, e.rs, e.maxp, e.maxr, e.f, e.ci) IN
              IF Ok(r[1]) THEN [r[1] EXCEPT !.exp = "callee", !.val = r[2]]
              ELSE [s EXCEPT !.exp = "fail"]
    [] e.op = "callee" ->
         IF s.exp = "callee" /\ (IF Top(s).k = "lift" THEN e.f = s.val ELSE e.vs = s.val) /\ Same(s, e.ob)
         THEN [s EXCEPT !.exp = ""] ELSE No(s)
    [] e.op = "throw" -> IF s.exp = "" THEN [s EXCEPT !.exp = "fail"] ELSE No(s)
    [] e.op = "ret" ->
         IF s.exp # "" \/ s.fr = <<>> THEN No(s)
         ELSE IF Top(s).k = "lift"
         THEN LET r == LiftReturn(s, e.f)
              IN  IF Ok(r[1]) THEN [r[1] EXCEPT !.exp = "done", !.val = r[2]] ELSE [s EXCEPT !.exp = "fail"]
         ELSE LET r == LowerResults(s, e.vs) IN
              IF r[1].st = "no" \/ ~AllocsOK(s, Top(s).i, s.k, r[1].k) THEN No(s)
              ELSE IF ~Ok(r[1]) THEN [s EXCEPT !.exp = "fail"]
              ELSE IF e.k > 0 /\ ~PostDue(r[1], e.k) THEN No(s)
              ELSE IF e.k > 0 /\ r[1].hook[r[1].po[e.k].i] = 1
              THEN [r[1] EXCEPT !.exp = "hook", !.val = r[2], !.pk = e.k]
              ELSE LET r2 == IF e.k > 0 THEN Post(r[1], e.k) ELSE <<r[1], <<>>>>
                       r3 == IF Ok(r2[1]) THEN LowerEnd(r2[1]) ELSE r2
                   IN  IF Ok(r3[1]) THEN [r3[1] EXCEPT !.exp = "done", !.val = r[2]] ELSE [s EXCEPT !.exp = "fail"]
    [] e.op = "hook" ->
         IF s.exp # "hook" \/ ~Same(s, e.ob) \/ e.i # s.po[s.pk].i THEN No(s)
         ELSE LET r2 == Post(s, s.pk)
                  r3 == IF ~Ok(r2[1]) THEN r2 ELSE IF s.po1 = 1 THEN r2 ELSE LowerEnd(r2[1])
              IN  IF Ok(r3[1]) THEN [r3[1] EXCEPT !.exp = "done", !.pk = 0] ELSE [s EXCEPT !.exp = "fail"]
    [] e.op = "post" ->         \* the host runs the post-return of a lifted call
         IF s.exp # "" \/ ~PostDue(s, e.k) THEN No(s)
         ELSE IF s.hook[s.po[e.k].i] = 1 THEN [s EXCEPT !.exp = "hook", !.pk = e.k, !.po1 = 1]
         ELSE LET r == Post(s, e.k)
              IN  IF Ok(r[1]) THEN [r[1] EXCEPT !.exp = "done", !.po1 = 1] ELSE [s EXCEPT !.exp = "fail"]
    [] e.op = "end" ->
         CASE s.exp = "refuse" ->
                IF Failed(e) /\ (s.ex2 = "trap" => e.st = "trap") /\ Same(s, e.ob) THEN [s EXCEPT !.exp = ""] ELSE No(s)
           [] s.exp = "fail" -> IF Failed(e) THEN [s EXCEPT !.exp = "over"] ELSE No(s)
           [] s.exp = "done" ->
                IF e.st = "ok" /\ Same(s, e.ob) /\ (s.po1 = 1 \/ (IF e.lifted = 1 THEN e.vs = s.val ELSE e.f = s.val))
                THEN [s EXCEPT !.exp = "", !.po1 = 0] ELSE No(s)
           [] OTHER -> No(s)
    [] OTHER -> No(s)

RECURSIVE Fold(_, _, _)
Fold(s, ev, j) == IF j > Len(ev) \/ s.st # "ok" THEN s
                  ELSE LET s2 == Step(s, ev[j])
                       IN  Fold(IF ev[j].seen = 1 THEN Seen(s2) ELSE s2, ev, j + 1)

Accept(e) ==
  /\ e.o.st = "ok"
  /\ LET s == Fold(Start(e.i, e.o), e.o.ev, 1)
     IN  s.st = "ok" /\ s.exp \in {"", "over"} /\ (s.exp = "" => s.k = Len(s.R) + 1)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
