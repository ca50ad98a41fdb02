------------------------------ MODULE TraceBig ------------------------------
(* What was recorded of values described by a shape and a size.  `as` says   *)
(* which property the event is about.                                        *)
EXTENDS Big, TraceLib
VARIABLES c, l

(* the recorder built what the specification describes *)
Built(e) ==
  /\ e.sh \in Shapes /\ Fits(e.sh, e.n)
  /\ e.fault \in Faults \/ (e.fault \in PairFaults /\ e.sh = "keys" /\ e.at \in 0..e.n - 1)
  /\ e.r.len = Measure(e.sh, e.n).len + Longer(e.fault, e.at)
  /\ (e.n <= 12 => e.r.in = Input(e.sh, e.n, e.fault, e.at))

(* the value, every element in its place *)
Held(o, e) == IF o.k = "ok" THEN o.count = Measure(e.sh, e.n).count /\ o.bad = -1 ELSE FALSE
DecIs(o, e) ==
  LET w == Outcome(e.sh, e.n, e.dl, e.il, e.fault) IN
  IF w = "ok" THEN Held(o, e)
  ELSE IF o.k # "err" THEN FALSE
  ELSE w \in {"DepthLimit", "ItemLimit"} => o.e = w
WhyIs(o, e) ==
  LET w == Outcome(e.sh, e.n, e.dl, e.il, e.fault) IN
  IF w = "ok" THEN o.k = "ok"
  ELSE IF o.k # "err" THEN FALSE
  ELSE o.e = w /\ o.io = (IF w = "EOF" THEN "UnexpectedEof" ELSE "InvalidData")

Explained(e) ==
  /\ e.f = "big" /\ e.r.k = "ok" /\ Built(e)
  /\ CASE e.as = "dec" -> DecIs(e.r.own, e) /\ DecIs(e.r.bor, e)
       [] e.as = "why" -> WhyIs(e.r.own, e) /\ WhyIs(e.r.bor, e)
       \* encoded from memory and decoded again
       [] e.as = "rt" -> Held(e.r.own, e) /\ Held(e.r.bor, e) /\ e.r.own.eq /\ e.r.bor.eq
       \* the bytes which encode it
       [] e.as = "canon" -> \A o \in {e.r.own, e.r.bor} :
                              IF o.k = "ok" THEN o.enc = Measure(e.sh, e.n).len /\ o.same ELSE FALSE
       [] e.as = "pair" -> /\ e.r.own.k = e.r.bor.k
                           /\ IF e.r.own.k = "ok" THEN e.r.own = e.r.bor /\ e.r.conv
                              ELSE e.r.own.k = "err" /\ e.r.own.e = e.r.bor.e

Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ Explained(Cases[c].ev[l]) = TRUE
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
