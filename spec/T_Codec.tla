------------------------------ MODULE T_Codec ------------------------------
(* Judges recordings of text conversions and of looking up codecs.
   input  [op |-> "enc" / "dec", enc, bs, cuts, broken, room]
          [op |-> "find", cs, name]
   observation [st, out, name, al, sz]                                       *)
EXTENDS Codec, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Find(i, o) ==
  IF Found(i.cs, i.name)
  THEN o.st = "ok" /\ o.name = i.name /\ o.al = EncAlign(i.name) /\ o.sz = UnitSize(i.name)
  ELSE o.st = "none"
Accept(e) ==
  CASE e.o.st \notin {"ok", "err", "none"} -> FALSE
    [] e.i.op = "find" -> Find(e.i, e.o)
    [] OTHER -> Allowed(e.i.op, e.i.enc, e.i.bs, e.i.broken, e.i.room, e.o.st, e.o.out)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == l > Len(Trace) \/ Accept(Trace[l])
=============================================================================
