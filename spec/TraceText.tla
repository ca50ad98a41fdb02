------------------------------ MODULE TraceText ------------------------------
(* Recorded calls of the text helpers, explained by Text.                    *)
EXTENDS Text, TraceLib
VARIABLES c, l

Gave(e, v) == e.r.k = "ok" /\ e.r.v = v
Refused(e) == e.r.k = "err"
(* an optional value *)
Opt(e, w) == IF w = <<>> THEN Refused(e) ELSE Gave(e, w[1])
Explained(e) ==
  CASE e.f = "tohex" -> Gave(e, ToHex(e.s))
    (* into a buffer of e.n bytes, at least as many as needed *)
    [] e.f = "fromhex" -> LET w == FromHex(e.s) IN
         IF w = <<>> THEN Refused(e)
         ELSE IF e.r.k = "ok" THEN Len(e.r.v) = e.n /\ SubSeq(e.r.v, 1, Len(w[1])) = w[1] ELSE FALSE
    [] e.f = "ishex" -> Gave(e, AllHex(e.s))
    [] e.f = "hexint" -> Gave(e, HexVal(e.s[1]))
    [] e.f = "b32" -> IF e.r.k # "ok" THEN FALSE
                      ELSE LET w == FromB32(e.s) IN CASE w.w = "any" -> TRUE [] OTHER -> e.r.v = w.v
    [] e.f = "unescb" -> Opt(e, Unescape(e.s))
    [] e.f = "unescs" -> LET w == Unescape(e.s) IN
                         IF w = <<>> THEN Refused(e) ELSE IF Utf8(w[1]) THEN Gave(e, w[1]) ELSE Refused(e)
    [] e.f = "split" -> IF e.r.k = "ok" THEN SplitOk(e.s, e.sep, e.r.a, e.r.b) ELSE FALSE
    [] e.f = "splitall" -> Gave(e, SplitAll(e.s, e.sep))
    [] e.f = "trim" -> Gave(e, Trim(e.s))
    [] e.f = "int" -> IF e.r.k \notin {"ok", "err"} THEN FALSE
                      ELSE IntOk(e.s, IF e.r.k = "ok" THEN <<e.r.v>> ELSE <<>>)
    [] e.f = "upper" -> Gave(e, IF e.s[1] >= 97 /\ e.s[1] <= 122 THEN e.s[1] - 32 ELSE e.s[1])
    [] e.f = "digit" -> Gave(e, Digit(e.s[1]))
    [] e.f = "blank" -> Gave(e, Blank(e.s[1]))
    [] OTHER -> FALSE
Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ (Explained(Cases[c].ev[l]) = TRUE)
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
