------------------------------ MODULE TraceEdit ------------------------------
(* Recorded histories of edits, explained by Edit.                           *)
EXTENDS Edit, TraceLib
VARIABLES c, l, s
StepOf(e) ==
  IF e.r.k # "ok" THEN {}
  ELSE LET n == Do(s, e)
           v == n.s[e.d]
       IN IF /\ e.r.ao = n.a /\ e.r.ab = n.a
             /\ e.r.own = v /\ e.r.bor = v
             /\ \A i \in 1..Len(n.s) : LET b == Enc(n.s[i]) IN e.r.eo[i] = b /\ e.r.eb[i] = b
          THEN {n.s} ELSE {}
Zero == [t |-> "i", n |-> <<48>>]
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = [i \in 1..3 |-> Zero]
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in StepOf(Cases[c].ev[l]) : s' = n
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
