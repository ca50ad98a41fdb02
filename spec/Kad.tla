-------------------------------- MODULE Kad --------------------------------
(* 160-bit identifiers as 20 bytes, big-endian; the XOR metric.              *)
EXTENDS Naturals, Sequences, Bitwise
XorId(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

Log2(x) == CASE x >= 128 -> 7 [] x >= 64 -> 6 [] x >= 32 -> 5 [] x >= 16 -> 4
             [] x >= 8 -> 3 [] x >= 4 -> 2 [] x >= 2 -> 1 [] OTHER -> 0
RECURSIVE TopBit(_, _)
(* position of the highest set bit, 0 the lowest; 0 also for zero *)
TopBit(d, i) ==
  IF i > Len(d) THEN 0
  ELSE IF d[i] # 0 THEN 8 * (Len(d) - i) + Log2(d[i])
  ELSE TopBit(d, i + 1)
DistExp(a, b) == TopBit(XorId(a, b), 1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MinDistExp(a, ids) == MinOf({DistExp(a, ids[i]) : i \in 1..Len(ids)})
=============================================================================
