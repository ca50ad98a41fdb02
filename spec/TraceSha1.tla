------------------------------ MODULE TraceSha1 ------------------------------
(* Recorded digests, explained by Sha1, block by block.                      *)
EXTENDS Sha1, TraceLib
VARIABLES c, l, s
Ev == Cases[c].ev[l]
Explained(e) ==
  IF e.r.k # "ok" THEN FALSE
  ELSE LET d == Digest(s.h) IN \A i \in 1..Len(e.r.v) : e.r.v[i] = d
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = Fresh
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ ~Full(s, Ev.b)
     /\ s' = Absorb(s, Ev.b) /\ UNCHANGED <<c, l>>
  \/ /\ l <= Len(Cases[c].ev)
     /\ Full(s, Ev.b)
     /\ (Explained(Ev) = TRUE)
     /\ l' = l + 1 /\ s' = Fresh /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
