-------------------------------- MODULE Leb --------------------------------
(* Unsigned LEB128 encodings of 32-bit integers.  An integer is its four
   little-endian bytes.                                                      *)
EXTENDS Bytes

\* the five 7-bit groups of an integer, least significant first (the last has 4 bits)
Groups(v) == << v[1] % 128,
                v[1] \div 128 + 2 * (v[2] % 64),
                v[2] \div 64 + 4 * (v[3] % 32),
                v[3] \div 32 + 8 * (v[4] % 16),
                v[4] \div 16 >>
OfGroups(g) == << g[1] + 128 * (g[2] % 2),
                  g[2] \div 2 + 64 * (g[3] % 4),
                  g[3] \div 4 + 32 * (g[4] % 8),
                  g[4] \div 8 + 16 * g[5] >>

\* the least number of bytes that can hold v
MinLen(v) == LET g == Groups(v)
                 used == {i \in 1..5 : g[i] # 0}
             IN  IF used = {} THEN 1 ELSE CHOOSE i \in used : \A j \in used : j <= i

\* the encoding of v in n bytes, MinLen(v) <= n <= 5
LebN(v, n) == LET g == Groups(v) IN [i \in 1..n |-> IF i < n THEN g[i] + 128 ELSE g[i]]
Leb(v) == LebN(v, MinLen(v))
LebNat(x) == Leb(NatToBytes(x, 4))

(* The integer encoded at position p of bs: ok, its value and its length; the
   failures are the end of the input inside the integer ("eof") and an integer
   that has more than five bytes or more than 32 bits ("big").               *)
LebAt(bs, p) ==
  LET have == IF Len(bs) - p + 1 < 5 THEN Len(bs) - p + 1 ELSE 5
      ends == {i \in 1..have : bs[p + i - 1] < 128}
  IN  IF ends = {} THEN [st |-> IF have = 5 THEN "big" ELSE "eof", v |-> <<0, 0, 0, 0>>, n |-> 0]
      ELSE LET n == CHOOSE i \in ends : \A j \in ends : i <= j
               g == [i \in 1..5 |-> IF i <= n THEN bs[p + i - 1] % 128 ELSE 0]
           IN  IF g[5] > 15 THEN [st |-> "big", v |-> <<0, 0, 0, 0>>, n |-> 0]
               ELSE [st |-> "ok", v |-> OfGroups(g), n |-> n]
=============================================================================
