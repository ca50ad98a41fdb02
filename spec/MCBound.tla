------------------------------ MODULE MCBound ------------------------------
(* Positions in every ascending sequence up to a length: a list grown by     *)
(* inserting each value where LowerBound puts it stays ascending.            *)
EXTENDS Ident, Json, TLC
CONSTANTS Len1, Emit
VARIABLES s, x
Vals == 0..4
Insert(q, p, v) == SubSeq(q, 1, p) \o <<v>> \o SubSeq(q, p + 1, Len(q))
Init == s = <<>> /\ x \in Vals
Next == Len(s) < Len1 /\ s' = Insert(s, LowerBound(s, x), x) /\ x' \in Vals
Spec == Init /\ [][Next]_<<s, x>>
Ascending == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
Inv == /\ Ascending
       /\ LET p == LowerBound(s, x) IN
            /\ p \in 0..Len(s)
            /\ \A i \in 1..p : s[i] < x
            /\ \A i \in p + 1..Len(s) : s[i] >= x
       /\ (Emit => PrintT("@" \o ToJson([s |-> s, x |-> x])))
=============================================================================
