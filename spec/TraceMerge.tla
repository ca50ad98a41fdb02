----------------------------- MODULE TraceMerge -----------------------------
(* Recorded parses of links into parameters that already hold something,     *)
(* explained by Merge of Magnet.  s: the parameters.                         *)
EXTENDS Magnet, TraceLib
VARIABLES c, l, s
StepOf(e) ==
  IF e.r.k # "ok" THEN {}
  ELSE CASE e.f = "have" -> IF e.r.q = e.q THEN {e.q} ELSE {}
         [] e.f = "merge" ->
              LET w == Link(e.u) IN
              IF e.r.good THEN (IF w.must # "err" THEN {n \in MergeOpt(s, w) : n = e.r.q} ELSE {})
              ELSE IF w.must # "ok" /\ Kept(s, e.r.q) THEN {e.r.q} ELSE {}
         [] OTHER -> {}
Empty == [ih |-> [i \in 1..20 |-> 0], name |-> <<>>, tr |-> <<>>, tiers |-> <<>>, ws |-> <<>>, pe |-> <<>>, dht |-> <<>>, prio |-> <<>>]
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = Empty
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in StepOf(Cases[c].ev[l]) : s' = n
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
