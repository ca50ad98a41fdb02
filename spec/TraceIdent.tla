----------------------------- MODULE TraceIdent -----------------------------
(* Recorded histories of identifiers, explained by Ident.  s: registers.     *)
EXTENDS Ident, TraceLib
VARIABLES c, l, s

Op2(f, a, b) == CASE f = "and" -> BAnd(a, b) [] f = "or" -> BOr(a, b) [] f = "xor" -> BXor(a, b)
(* registers after an operation, <<>> for none allowed *)
After(e) ==
  CASE e.f \in {"and", "or", "xor"} -> <<[s EXCEPT ![e.d] = Op2(e.f, s[e.i], s[e.j])]>>
    [] e.f = "shl" -> <<[s EXCEPT ![e.i] = Shl(s[e.i], e.n)]>>
    [] e.f = "shr" -> <<[s EXCEPT ![e.i] = Shr(s[e.i], e.n)]>>
    [] e.f = "not" -> <<[s EXCEPT ![e.d] = BNot(s[e.i])]>>
    [] e.f = "const" -> <<[s EXCEPT ![e.d] = IF e.ones THEN Ones(20) ELSE Zero(20)]>>
    [] e.f = "poke" -> <<[s EXCEPT ![e.d][e.at] = e.b]>>
    [] e.f = "load" -> IF Len(e.b) = 20 THEN <<[s EXCEPT ![e.d] = e.b]>> ELSE <<s>>
    [] OTHER -> <<s>>
Answer(e) ==
  CASE e.f = "load" -> e.r.v = (Len(e.b) = 20)
    [] e.f = "clz" -> e.r.v = Clz(s[e.i])
    [] e.f = "cmp" -> e.r.v = Cmp(s[e.i], s[e.j])
    [] e.f = "eq" -> e.r.v = (s[e.i] = s[e.j])
    [] e.f = "zero" -> e.r.v = (s[e.i] = Zero(20))
    [] e.f = "show" -> e.r.v = Hex(s[e.i])
    [] e.f = "bytes" -> e.r.v = s[e.i]
    (* C13 *)
    [] e.f = "dist" -> e.r.v = DistExp(s[e.i], s[e.j])
    [] e.f = "mind" -> e.r.v = MinDistExp(s[e.i], [n \in 1..Len(e.js) |-> s[e.js[n]]])
    (* C28 *)
    [] e.f = "bound" -> e.r.v = LowerBound(e.s, e.x)
    [] OTHER -> TRUE
Known(e) == e.f \in {"and", "or", "xor", "shl", "shr", "not", "const", "poke", "load", "clz", "cmp", "eq",
                     "zero", "show", "bytes", "dist", "mind", "bound"}
Step(e) ==
  IF e.r.k # "ok" \/ ~Known(e) THEN {}
  ELSE IF ~Answer(e) THEN {}
  ELSE LET n == After(e)[1] IN IF "regs" \in DOMAIN e.r THEN (IF e.r.regs = n THEN {n} ELSE {}) ELSE {n}

Init == c \in 1..Len(Cases) /\ l = 1 /\ s = Cases[c].cfg.regs
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in Step(Cases[c].ev[l]) : s' = n
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
