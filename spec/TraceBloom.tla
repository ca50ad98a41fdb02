----------------------------- MODULE TraceBloom -----------------------------
(* Recorded histories of filters.  s: the filters; est: the estimates seen,  *)
(* a function from numbers of set bits (as order-preserving byte strings).   *)
EXTENDS Bloom, TraceLib
VARIABLES c, l, s, est
M(i) == Cases[c].cfg.m[i]

RECURSIVE LessEqAt(_, _, _)
LessEqAt(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessEqAt(a, b, i + 1)
LessEq(a, b) == LessEqAt(a, b, 1)

(* the filters afterwards, none if the outcome is wrong *)
Step(e) ==
  IF e.r.k # "ok" THEN {}
  ELSE CASE e.f = "set" -> {[s EXCEPT ![e.i] = Add(s[e.i], e.key, M(e.i))]}
         [] e.f = "clear" -> {[s EXCEPT ![e.i] = {}]}
         [] e.f = "find" -> IF e.r.v = Find(s[e.i], e.key, M(e.i)) THEN {s} ELSE {}
         [] e.f = "bytes" -> IF e.r.v = Bytes(s[e.i], M(e.i)) THEN {s} ELSE {}
         [] e.f = "load" -> {[s EXCEPT ![e.i] = Unbytes(e.b)]}
         [] e.f = "copy" -> {[s EXCEPT ![e.i] = s[e.j]]}
         [] e.f = "size" ->
              LET n == Cardinality(s[e.i]) IN
              IF /\ e.r.v.b[1] < 128
                 /\ Estimate(n, M(e.i), e.r.v.x)
                 /\ \A p \in est : (p.m = M(e.i) => /\ (p.n = n => p.v = e.r.v.b)
                                                    /\ (p.n < n => LessEq(p.v, e.r.v.b))
                                                    /\ (p.n > n => LessEq(e.r.v.b, p.v)))
              THEN {s} ELSE {}
         [] OTHER -> {}
Seen(e) == IF e.f = "size" THEN est \cup {[m |-> M(e.i), n |-> Cardinality(s[e.i]), v |-> e.r.v.b]} ELSE est

Init == c \in 1..Len(Cases) /\ l = 1 /\ s = [i \in 1..Len(Cases[c].cfg.m) |-> {}] /\ est = {}
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in Step(Cases[c].ev[l]) : s' = n
     /\ est' = Seen(Cases[c].ev[l])
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s, est>>
Spec == Init /\ [][Next]_<<c, l, s, est>>
=============================================================================
