----------------------------- MODULE TraceOrder -----------------------------
(* Recorded comparisons and sorts, explained by Order.                       *)
EXTENDS Order, TraceLib
VARIABLES c, l
Explained(e) ==
  IF e.r.k # "ok" THEN FALSE
  ELSE LET want == [i \in 1..Len(e.vs) |-> [j \in 1..Len(e.vs) |-> CmpVal(e.vs[i], e.vs[j])]]
       IN e.r.own = want /\ e.r.bor = want /\ Sorts(e.r.so, e.vs) /\ Sorts(e.r.sb, e.vs)
Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ l <= Len(Cases[c].ev) /\ (Explained(Cases[c].ev[l]) = TRUE) /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
