------------------------------ MODULE MCOrder ------------------------------
(* Small values: the order is total, and equal means the same; the triples   *)
(* are printed for the replay in the code.                                   *)
EXTENDS Order, Json, TLC
CONSTANTS Wide, Emit
VARIABLE t
Ints == {<<48>>, <<45, 49>>, <<45, 49, 48>>, <<57>>, <<49, 48>>} \cup (IF Wide THEN {IMax, <<45>> \o IMin, <<45, 57>>} ELSE {})
Strs == {<<>>, <<48>>, <<48, 48>>, <<49>>, <<200>>}
Leaf == {[t |-> "i", n |-> n] : n \in Ints} \cup {[t |-> "s", b |-> b] : b \in Strs}
Few == {[t |-> "i", n |-> <<57>>], [t |-> "i", n |-> <<49, 48>>], [t |-> "s", b |-> <<>>]}
Lists == {[t |-> "l", l |-> x] : x \in {<<>>} \cup {<<a>> : a \in Few} \cup {<<a, b>> : a, b \in Few}}
Keys == {<<>>, <<97>>, <<97, 97>>, <<98>>}
Dicts == {[t |-> "d", d |-> <<>>]}
   \cup {[t |-> "d", d |-> <<[k |-> k, v |-> a]>>] : k \in Keys, a \in Few}
   \cup {[t |-> "d", d |-> <<[k |-> k, v |-> [t |-> "i", n |-> <<57>>]], [k |-> <<99>>, v |-> a]>>] : k \in Keys, a \in Few}
Vals == Leaf \cup Lists \cup Dicts
Nest == {[t |-> "l", l |-> <<v>>] : v \in Lists \cup Dicts}
All == IF Wide THEN Vals \cup Nest ELSE Vals
Init == t \in {<<a, b>> : a, b \in All}
Next == Len(t) = 2 /\ \E v \in (IF Wide THEN Vals ELSE Leaf \cup Lists) : t' = Append(t, v)
Spec == Init /\ [][Next]_t
Inv ==
  IF Len(t) = 2
  THEN /\ CmpVal(t[1], t[2]) = -CmpVal(t[2], t[1])
       /\ (CmpVal(t[1], t[2]) = 0) = (t[1] = t[2])
       /\ Emit => PrintT("@" \o ToJson([vs |-> t]))
  ELSE /\ CmpVal(t[1], t[2]) <= 0 /\ CmpVal(t[2], t[3]) <= 0 => CmpVal(t[1], t[3]) <= 0
       /\ CmpVal(t[1], t[2]) < 0 /\ CmpVal(t[2], t[3]) <= 0 => CmpVal(t[1], t[3]) < 0
=============================================================================
