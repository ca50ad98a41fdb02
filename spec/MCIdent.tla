------------------------------ MODULE MCIdent ------------------------------
(* Ident against plain arithmetic: every 16-bit number, as a number and as a *)
(* pair of bytes, under every shift amount; and all short histories of a     *)
(* register machine, printed for the replay in the code.                     *)
EXTENDS Ident, Json, TLC
CONSTANTS Part, Depth, Emit
VARIABLES x, hist
vars == <<x, hist>>

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
AndN(a, b) == LET RECURSIVE F(_, _, _)
                  F(p, q, m) == IF m = 0 THEN 0 ELSE 2 * F(p \div 2, q \div 2, m - 1) + (p % 2) * (q % 2)
              IN F(a, b, 8)
NumberOk ==
  LET n == Num(x) a == x[1] b == x[2] IN
  /\ n \in 0..65535
  /\ \A k \in 0..15 : Num(Shl(x, k)) = (n * P2[k + 1]) % 65536 /\ Num(Shr(x, k)) = n \div P2[k + 1]
  /\ \A k \in {16, 17, 24, 160, 100000} : Shl(x, k) = Zero(2) /\ Shr(x, k) = Zero(2)
  /\ Num(BNot(x)) = 65535 - n
  /\ BAnd(<<a>>, <<b>>) = <<AndN(a, b)>>
  /\ BOr(<<a>>, <<b>>) = <<a + b - AndN(a, b)>>
  /\ BXor(<<a>>, <<b>>) = <<a + b - 2 * AndN(a, b)>>
  /\ IF n = 0 THEN Clz(x) = 16 ELSE LET z == Clz(x) IN z \in 0..15 /\ P2[16 - z] <= n /\ n < P2[17 - z]
  /\ TopBit(x, 1) = (IF n = 0 THEN 0 ELSE 15 - Clz(x))
  /\ Cmp(<<a>>, <<b>>) = (IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq")
  /\ Cmp(x, <<b, a>>) = (IF n < 256 * b + a THEN "lt" ELSE IF n > 256 * b + a THEN "gt" ELSE "eq")
  /\ DistExp(<<a>>, <<b>>) = DistExp(<<b>>, <<a>>)
  (* an identifier at least as close as another has at most its bucket *)
  /\ \A c \in {<<0>>, <<1>>, <<7>>, <<128>>, <<255>>} :
       Num(XorId(<<a>>, c)) <= Num(XorId(<<b>>, c)) => DistExp(<<a>>, c) <= DistExp(<<b>>, c)

(* registers 1..3 *)
Amounts == {0, 1, 7, 8, 9, 15, 16, 152, 153, 159, 160, 161, 1000}
Ops == [f : {"shl", "shr"}, i : 1..2, k : Amounts]
         \cup [f : {"and", "or", "xor"}, i : 1..2, j : 2..3, m : 1..6]
         \cup [f : {"not"}, i : 1..2]

Init == /\ hist = <<>>
        /\ x = <<>>
Next == IF Part = "number"
        THEN Len(x) < 2 /\ \E b \in 0..255 : x' = Append(x, b) /\ hist' = hist
        ELSE Len(hist) < Depth /\ \E o \in Ops : hist' = Append(hist, o) /\ x' = x
Spec == Init /\ [][Next]_vars
Inv == IF Part = "number" THEN Len(x) = 2 => NumberOk
       ELSE Emit /\ Len(hist) = Depth => PrintT("@" \o ToJson([h |-> hist]))
=============================================================================
