----------------------------- MODULE TraceMagnet -----------------------------
(* Recorded parses of magnet links, explained by Magnet.  A case observes     *)
(* the info-hash (view "ih"), the selection ("so") or all others ("all").    *)
EXTENDS Magnet, TraceLib
VARIABLES c, l

(* the selected runs <<lo, hi>> stand for the set x *)
RunsOf(runs) == UNION {runs[i][1]..runs[i][2] : i \in 1..Len(runs)}
IsTop(n, S) == IF S = {} THEN n = 0 ELSE n - 1 \in S /\ \A y \in S : y < n
Ordered(runs) == \A i \in 1..Len(runs) : runs[i][1] <= runs[i][2] /\ (i > 1 => runs[i - 1][2] + 1 < runs[i][1])
View(e, w) ==
  CASE e.v = "ih" -> e.r.ih = w.ih /\ e.r.print = LinkOf(w.ih) /\ e.r.again = <<w.ih>>
    [] e.v = "so" -> Ordered(e.r.runs) /\ \E sel \in {w.sel, w.sel \cup w.opt} : RunsOf(e.r.runs) = sel /\ IsTop(e.r.len, sel)
    [] e.v = "all" -> /\ e.r.name = w.name /\ e.r.tr = w.tr /\ e.r.ws = w.ws /\ e.r.pe = w.pe
                      /\ e.r.tiers = [i \in 1..Len(w.tr) |-> i - 1]
                      /\ e.r.dht = [i \in 1..Len(w.dht) |-> [h |-> w.dht[i].h, p |-> w.dht[i].p]]
Explained(e) ==
  IF e.r.k \notin {"ok", "err"} THEN FALSE
  ELSE LET w == Link(e.u) IN
    IF e.r.k = "err" THEN w.must # "ok" ELSE w.must # "err" /\ View(e, w)
(* C35 *)
WhyOk(e) ==
  IF e.r.k \notin {"ok", "err"} THEN FALSE
  ELSE LET w == Link(e.u) IN
    IF e.r.k = "ok" THEN w.must # "err" ELSE w.must # "ok" /\ e.r.e \in LinkFaults(e.u)
Explains(e) == IF e.f = "magnet" THEN Explained(e) ELSE IF e.f = "why" THEN WhyOk(e) ELSE FALSE
Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ (Explains(Cases[c].ev[l]) = TRUE)
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
