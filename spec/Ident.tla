------------------------------- MODULE Ident -------------------------------
(* Node and torrent identifiers (common/src/sha1.rs): byte strings read as   *)
(* big-endian numbers of 8 * length bits, 160 in the code.                   *)
EXTENDS Kad, Integers, FiniteSets

Bits(x) == 8 * Len(x)
Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>[k + 1]
(* bit 0 is the highest *)
BitAt(x, i) == (x[(i \div 8) + 1] \div Pow2(7 - (i % 8))) % 2
FromBits(n, bit(_)) ==
  [j \in 1..n |-> LET p == 8 * (j - 1) IN
     128 * bit(p) + 64 * bit(p + 1) + 32 * bit(p + 2) + 16 * bit(p + 3)
       + 8 * bit(p + 4) + 4 * bit(p + 5) + 2 * bit(p + 6) + bit(p + 7)]

Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
Shl(x, k) == FromBits(Len(x), LAMBDA i : IF i + k < Bits(x) THEN BitAt(x, i + k) ELSE 0)
Shr(x, k) == FromBits(Len(x), LAMBDA i : IF i >= k THEN BitAt(x, i - k) ELSE 0)
BAnd(x, y) == [i \in 1..Len(x) |-> x[i] & y[i]]
BOr(x, y) == [i \in 1..Len(x) |-> x[i] | y[i]]
BXor(x, y) == XorId(x, y)
BNot(x) == [i \in 1..Len(x) |-> 255 - x[i]]
Clz(x) == IF \A i \in 1..Len(x) : x[i] = 0 THEN Bits(x)
          ELSE (CHOOSE i \in 0..Bits(x) - 1 : BitAt(x, i) = 1 /\ \A j \in 0..i - 1 : BitAt(x, j) = 0)

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i > Len(a) THEN "eq" ELSE IF a[i] < b[i] THEN "lt" ELSE IF a[i] > b[i] THEN "gt" ELSE CmpAt(a, b, i + 1)
Cmp(a, b) == CmpAt(a, b, 1)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(x) == [i \in 1..2 * Len(x) |-> LET b == x[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]

(* The number, when it is small enough for TLC. *)
RECURSIVE Num(_)
Num(x) == IF x = <<>> THEN 0 ELSE Num(SubSeq(x, 1, Len(x) - 1)) * 256 + x[Len(x)]

(* Where v belongs in an ascending sequence (dht/src/detail.rs). *)
LowerBound(s, v) == Cardinality({i \in 1..Len(s) : s[i] < v})
=============================================================================
