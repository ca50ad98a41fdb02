---------------------------- MODULE TraceBencode ----------------------------
(* Recorded encodings and decodings, explained by Bencode.                   *)
EXTENDS Bencode, TraceLib
VARIABLES c, l

Ok(o) == o.k = "ok"
Is(o, v) == IF o.k = "ok" THEN o.v = v ELSE FALSE

(* C01, C02 *)
EncodeEv(e) ==
  /\ e.f = "enc"
  /\ IsValue(e.v)
  /\ Ok(e.r)
  /\ LET b == Enc(e.v) IN
       /\ e.r.own = b /\ e.r.bor = b /\ e.r.same
       /\ (e.r.text => e.r.disp = b /\ e.r.dispb = b)
  /\ Is(e.r.oo, e.v) /\ Is(e.r.ob, e.v) /\ Is(e.r.bo, e.v) /\ Is(e.r.bb, e.v) /\ e.r.eq

(* C01 alone: whatever the bytes are, they must decode to the value. *)
RoundTripEv(e) ==
  /\ e.f = "rt"
  /\ IsValue(e.v)
  /\ Ok(e.r)
  /\ Is(e.r.oo, e.v) /\ Is(e.r.ob, e.v) /\ Is(e.r.bo, e.v) /\ Is(e.r.bb, e.v) /\ e.r.eq
  /\ LET o == Denote(e.r.own) w == Denote(e.r.bor) IN
       (IF o.ok /\ w.ok THEN o.v = e.v /\ w.v = e.v ELSE FALSE)

(* C02 alone *)
CanonEv(e) ==
  /\ e.f = "canon"
  /\ Ok(e.r)
  /\ LET b == Enc(e.v) IN
       /\ e.r.own = b /\ e.r.bor = b /\ e.r.same
       /\ (e.r.text => e.r.disp = b /\ e.r.dispb = b)

(* C02: what was decoded is written back canonically, which is a fixed point *)
ReencodeEv(e) ==
  /\ e.f = "re"
  /\ Ok(e.r)
  /\ LET d == Denote(e.in) IN
       /\ d.ok
       /\ LET b == Enc(d.v) IN e.r.o1 = b /\ e.r.o2 = b /\ e.r.b1 = b /\ e.r.b2 = b

Decoded(o, d, dl, il) ==
  IF ~d.ok THEN o.k = "err"
  ELSE IF OverDepth(d, dl) \/ OverItems(d, il)
  THEN /\ o.k = "err"
       /\ \/ OverDepth(d, dl) /\ o.e = "DepthLimit"
          \/ OverItems(d, il) /\ o.e = "ItemLimit"
  ELSE Is(o, d.v)

(* C03 (without limits), C04 (with) *)
DecodeEv(e) ==
  /\ e.f = "dec"
  /\ Ok(e.r)
  /\ LET d == Denote(e.in) IN
       /\ Decoded(e.r.own, d, e.dl, e.il)
       /\ Decoded(e.r.bor, d, e.dl, e.il)
       /\ Decoded(e.r.fs, d, e.dl, e.il)

(* C05: both representations say the same *)
Same(o, b) ==
  IF o.k = "ok" THEN (IF b.k = "ok" THEN o.v = b.v ELSE FALSE)
  ELSE o.k = "err" /\ b.k = "err" /\ o.e = b.e
PairEv(e) ==
  /\ e.f = "pair"
  /\ Ok(e.r)
  /\ Same(e.r.own, e.r.bor)
  /\ e.r.both = (e.r.own.k = "ok")
  /\ e.r.both =>
       LET v == e.r.own.v
           b == Enc(v)
           a == Accessors(v, e.key, e.i)
       IN /\ e.r.to_owned = v /\ e.r.as_ref = v /\ e.r.eq /\ e.r.disp
          /\ \A j \in 2..Len(e.r.enc) : e.r.enc[j] = e.r.enc[1]
          /\ e.r.ao = a /\ e.r.ar = a /\ e.r.at = a /\ e.r.af = a

(* The same where the value is too deep to be recorded: its encodings are.  *)
FlatIs(o, d, dl, il) ==
  IF ~d.ok THEN o.k = "err"
  ELSE IF OverDepth(d, dl) \/ OverItems(d, il)
  THEN /\ o.k = "err"
       /\ \/ OverDepth(d, dl) /\ o.e = "DepthLimit"
          \/ OverItems(d, il) /\ o.e = "ItemLimit"
  ELSE Is(o, Enc(d.v))
FlatEv(e) ==
  /\ e.f = "flat"
  /\ Ok(e.r)
  /\ LET d == Denote(e.in) IN FlatIs(e.r.own, d, e.dl, e.il) /\ FlatIs(e.r.bor, d, e.dl, e.il)
FlatPairEv(e) ==
  /\ e.f = "flatpair"
  /\ Ok(e.r)
  /\ Same(e.r.own, e.r.bor)
  /\ (e.r.own.k = "ok" => e.r.enc = <<e.r.own.v, e.r.own.v>>)

(* C33: refused for the first fault, by every way in *)
Fault(b, dl, il) ==
  LET s == Run(b, dl, il) IN
  [st |-> s.st,
   n |-> CASE s.st = "InvalidChar" -> b[s.p]
           [] s.st = "ExpectedChar" -> IF b[s.p] = CI THEN CE ELSE CCOLON
           [] OTHER -> -1,
   io |-> IF s.st = "EOF" THEN "UnexpectedEof" ELSE "InvalidData"]
Blames(o, w) ==
  IF w.st = "ok" THEN o.k = "ok"
  ELSE IF o.k # "err" THEN FALSE
  ELSE o.e = w.st /\ o.n = w.n /\ o.io = w.io
WhyEv(e) ==
  /\ e.f = "why"
  /\ Ok(e.r)
  /\ LET w == Fault(e.in, e.dl, e.il) IN \A i \in 1..Len(e.r.by) : Blames(e.r.by[i], w)

(* C03: very deep nesting is decoded and dropped without dying *)
DeepEv(e) == e.f = "deep" /\ Ok(e.r)

Explained(e) ==
  \/ EncodeEv(e) \/ RoundTripEv(e) \/ CanonEv(e) \/ ReencodeEv(e)
  \/ DecodeEv(e) \/ PairEv(e) \/ FlatEv(e) \/ FlatPairEv(e) \/ DeepEv(e) \/ WhyEv(e)

Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ Explained(Cases[c].ev[l]) = TRUE   \* "= TRUE": evaluated once, as a predicate
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
