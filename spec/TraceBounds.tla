----------------------------- MODULE TraceBounds -----------------------------
(* Recorded clamps and draws, explained by Bounds.                           *)
EXTENDS Bounds, TraceLib
VARIABLES c, l
Explained(e) ==
  IF e.r.k # "ok" THEN FALSE
  ELSE CASE e.f = "clamp" -> e.r.v = Clamp(e.v, e.lo, e.hi)
         (* each value of a small range turns up in 60 n draws *)
         [] e.f = "draw" -> {e.r.vals[i] : i \in 1..Len(e.r.vals)} = Draws(e.n)
         (* of a large range, both halves do, and no binary digit is always the same *)
         [] e.f = "far" -> e.r.inside /\ e.r.low /\ e.r.high /\ e.r.steady = 0
         (* no place of a buffer keeps its byte, and no two have the same every time *)
         [] e.f = "fill" -> e.r.stuck = 0 /\ e.r.beyond = 0 /\ e.r.tied = 0
         [] e.f = "seeds" -> e.r.distinct = e.n /\ e.r.stuck = 0 /\ e.r.tied = 0
         [] OTHER -> FALSE
Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ (Explained(Cases[c].ev[l]) = TRUE)
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
