------------------------------- MODULE MCBig -------------------------------
(* The closed forms against the encoding, the meaning and the decoder of the *)
(* values they describe, size by size.                                       *)
EXTENDS Big
CONSTANTS N, D
VARIABLES sh, n, sum
vars == <<sh, n, sum>>

Init == sh \in Shapes \cup {"digits"} /\ n = (IF sh \in {"nest", "dnest"} THEN 1 ELSE 0) /\ sum = 0
Next == /\ n < (IF sh = "digits" THEN D ELSE N)
        /\ n' = n + 1 /\ sh' = sh /\ sum' = sum + Len(NatDigits(n))
Spec == Init /\ [][Next]_vars

Right ==
  IF sh = "digits" THEN DigitSum(n) = sum /\ Digits(n) = Len(NatDigits(n))
  ELSE LET v == Whole(sh, n)
           b == Enc(v)
           d == Denote(b)
           w == Measure(sh, n)
           ls == {-1, 0, 1, w.m - 1, w.m, w.m + 1, w.n - 1, w.n, w.n + 1}
       IN /\ Fits(sh, n) /\ IsValue(v)
          /\ d.ok /\ d.v = v /\ d.m = w.m /\ d.n - 1 = w.n /\ Len(b) = w.len
          /\ w.count = CASE v.t = "l" -> Len(v.l) [] v.t = "d" -> Len(v.d) [] v.t = "s" -> Len(v.b)
          /\ \A x \in ls : \A p \in {<<x, -1>>, <<-1, x>>} :
               \A f \in Faults :
                 (f = "cut" => b # <<48, 58>>)
                 => Run(Input(sh, n, f, 0), p[1], p[2]).st = Outcome(sh, n, p[1], p[2], f)
          /\ (sh = "keys" => \A f \in PairFaults : \A at \in 0..n - 1 :
               LET x == Input(sh, n, f, at) IN
               /\ Len(x) = w.len + Longer(f, at)
               /\ ~Denote(x).ok
               /\ Run(x, -1, -1).st = Outcome(sh, n, -1, -1, f))
=============================================================================
