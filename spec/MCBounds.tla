------------------------------ MODULE MCBounds ------------------------------
(* Clamp in every small range; printed for the replay.                       *)
EXTENDS Bounds, Json, TLC
CONSTANTS Max, Emit
VARIABLES v, lo, hi
Dom == -Max..Max
Init == v \in Dom /\ lo \in Dom /\ hi \in {h \in Dom : lo <= h}
Next == FALSE /\ UNCHANGED <<v, lo, hi>>
Spec == Init /\ [][Next]_<<v, lo, hi>>
Inv == LET x == Clamp(v, lo, hi) IN
  /\ lo <= x /\ x <= hi
  /\ v \in lo..hi => x = v
  /\ v < lo => x = lo
  /\ v > hi => x = hi
  /\ Clamp(x, lo, hi) = x
  /\ v < Max => x <= Clamp(v + 1, lo, hi)
  /\ (Emit => PrintT("@" \o ToJson([v |-> v, lo |-> lo, hi |-> hi])))
=============================================================================
