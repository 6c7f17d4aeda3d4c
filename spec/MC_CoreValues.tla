--------------------------- MODULE MC_CoreValues ---------------------------
(* All ways of taking a few values from their source and from two views of it,
   one of them a view of the other or of the source.

   Laws: values leave in the order in which they were given and none twice;
   what is read has the kind that was asked for and the low bits of the value
   that left; a view never gives more than its kinds allow; and through a view
   with the values' own kinds nothing changes.                               *)
EXTENDS CoreValues, TLC, Json

CONSTANTS MaxVals, MaxView, MaxTakes
VARIABLES vals, views, taken, ops, got, st
vars == <<vals, views, taken, ops, got, st>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* bytes that tell the values and their halves apart
Bytes(k, i) == [j \in 1..Width(k) |-> 16 * i + j]
Init == /\ \E ks \in SeqsUpTo(Kinds, MaxVals) : vals = [i \in 1..Len(ks) |-> [k |-> ks[i], b |-> Bytes(ks[i], i)]]
        /\ \E a \in SeqsUpTo(Kinds, MaxView), b \in SeqsUpTo(Kinds, 1), of \in 0..1 :
             views = <<[of |-> 0, ks |-> a], [of |-> of, ks |-> b]>>
        /\ taken = <<0, 0, 0>> /\ ops = <<>> /\ got = <<>> /\ st = "run"
TakeOne(v, want) ==
  LET r == Take(vals, views, taken, v, want) IN
  /\ taken' = r.taken /\ ops' = Append(ops, [v |-> v, want |-> want])
  /\ IF r.st = "ok" THEN got' = Append(got, r.x) /\ st' = IF Len(ops) + 1 = MaxTakes THEN "end" ELSE "run"
     ELSE got' = got /\ st' = r.st
  /\ UNCHANGED <<vals, views>>
Next == st = "run" /\ \E v \in 0..2, want \in Kinds : TakeOne(v, want)
Spec == Init /\ [][Next]_vars

Laws ==
  /\ Len(got) <= Len(vals)
  /\ \A i \in 1..Len(got) :
       /\ got[i].k = ops[i].want
       /\ got[i].b = SubSeq(vals[i].b, 1, Len(got[i].b)) /\ Len(got[i].b) = Width(got[i].k)
       /\ ops[i].v = 0 => got[i] = vals[i]
       /\ Width(vals[i].k) = 4 /\ vals[i].k = "Float32" => got[i] = vals[i]
  /\ st = "run" => taken[1] = Len(got)
  /\ \A v \in 1..2 : taken[v + 1] <= Len(views[v].ks)
  /\ st = "err" /\ ops[Len(ops)].v = 0 =>
       (Len(got) = Len(vals) \/ vals[Len(got) + 1].k # ops[Len(ops)].want)
Emit == st \in {"end", "err"} => PrintT(ToJson([vals |-> vals, views |-> views, ops |-> ops]))
=============================================================================
