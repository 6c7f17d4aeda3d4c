------------------------------ MODULE MC_Wasm ------------------------------
(* Small modules grown one part at a time, their encodings and all ways of
   cutting them and of changing the size of a section.                       *)
EXTENDS Wasm, Json, TLC

CONSTANTS MaxTypes, MaxFuncs, MaxExports, MaxBody, Wide
VARIABLES m, pad, keep, other

Z4 == <<0, 0, 0, 0>>
Tys == {[p |-> <<>>, r |-> <<>>], [p |-> <<0, 1>>, r |-> <<2>>]} \cup (IF Wide THEN {[p |-> <<3>>, r |-> <<0, 0>>]} ELSE {})
Locs == {<<>>, << <<1, 2>>, <<3, 130>> >>} \cup (IF Wide THEN {<< <<0, 1>> >>} ELSE {})
Ins == {[op |-> "i32.add", x |-> <<>>], [op |-> "local.get", x |-> Z4], [op |-> "local.get", x |-> <<128, 0, 0, 0>>]}
EndI == [op |-> "end", x |-> <<>>]
Exps == {[name |-> <<>>, idx |-> Z4], [name |-> <<97, 98>>, idx |-> <<1, 0, 0, 0>>], [name |-> <<195, 169>>, idx |-> <<255, 255, 255, 255>>]}
\* another section: where (before the n-th known one), its id and contents
Others == <<<<>>, <<0, 0, <<>>>>, <<0, 0, <<1, 97, 11>>>>, <<1, 2, <<0>>>>, <<2, 5, <<1, 3, 0>>>>, <<9, 11, <<1, 10, 0>>>>>>
\* layouts: longer integers, empty sections kept, another section
Layouts == {<<0, FALSE, 1>>, <<0, TRUE, 2>>, <<1, FALSE, 3>>, <<0, FALSE, 4>>, <<1, TRUE, 5>>, <<0, TRUE, 6>>}
           \cup (IF Wide THEN {<<4, FALSE, 1>>, <<3, TRUE, 3>>} ELSE {})

Init == /\ m = [types |-> <<>>, funcs |-> <<>>, exports |-> <<>>]
        /\ \E y \in Layouts : pad = y[1] /\ keep = y[2] /\ other = Others[y[3]]
Next ==
  /\ UNCHANGED <<pad, keep, other>>
  /\ \/ /\ Len(m.types) < MaxTypes /\ m.funcs = <<>> /\ m.exports = <<>>
        /\ \E t \in Tys : m' = [m EXCEPT !.types = Append(@, t)]
     \/ /\ Len(m.funcs) < MaxFuncs /\ m.exports = <<>>
        /\ \E ls \in Locs : m' = [m EXCEPT !.funcs = Append(@, [t |-> Z4, loc |-> ls, body |-> <<EndI>>])]
     \/ /\ m.funcs # <<>> /\ m.exports = <<>>
        /\ LET k == Len(m.funcs)
               b == m.funcs[k].body
           IN  /\ Len(b) <= MaxBody
               /\ \E i \in Ins : m' = [m EXCEPT !.funcs[k].body = SubSeq(b, 1, Len(b) - 1) \o <<i, EndI>>]
     \/ /\ Len(m.exports) < MaxExports
        /\ \E e \in Exps : m' = [m EXCEPT !.exports = Append(@, e)]
Spec == Init /\ [][Next]_<<m, pad, keep, other>>

Secs == LET s == SectionsOf(m, pad, keep) IN
        IF other = <<>> THEN s
        ELSE LET at == IF other[1] > Len(s) THEN Len(s) ELSE other[1]
             IN  SubSeq(s, 1, at) \o << <<other[2], other[3]>> >> \o SubSeq(s, at + 1, Len(s))
\* ---- laws, of the sections s and the binary b ----
RoundTrip(b) == LET d == DecodeWasm(b) IN d.st = "module" /\ d.m = m
\* the binary may only be cut behind the preamble and behind each section
CutLaw(s, b) ==
  LET ends == {Len(Assemble(SubSeq(s, 1, k), pad)) : k \in 0..Len(s)}
  IN  \A k \in 0..(Len(b) - 1) : k \notin ends => DecodeWasm(SubSeq(b, 1, k)).st = "err"
\* the k-th section with a size that is off by d
Resized(s, k, d) ==
  Assemble(SubSeq(s, 1, k - 1), pad) \o <<s[k][1]>> \o Nat4(Len(s[k][2]) + d, pad) \o s[k][2]
  \o FlattenSeq([i \in 1..(Len(s) - k) |-> EncSection(s[k + i][1], s[k + i][2], pad)])
SizeLaw(s) == \A k \in 1..Len(s) : s[k][1] \in Known =>
                \A d \in {-1, 1} : DecodeWasm(Resized(s, k, d)).st = "err"

Laws == LET s == Secs
            b == Assemble(s, pad)
        IN  /\ RoundTrip(b) /\ CutLaw(s, b) /\ SizeLaw(s)
            /\ PrintT(ToJson([bs |-> b]))
=============================================================================
