----------------------------- MODULE MCBencode -----------------------------
(* Byte by byte, every input whose proper prefixes can still be completed:   *)
(* the token machine and the recursive definition agree, without and with    *)
(* limits; what is decoded is a value, and its encoding denotes it.          *)
EXTENDS Bencode, TLC, Json, IOUtils
CONSTANTS L, Emit, Chunks
VARIABLES inp, k
vars == <<inp, k>>

(* byte by byte *)
ByteChunks == {<<x>> : x \in {48, 49, 50, 57, 58, 45, 43, 100, 101, 105, 108, 97, 255}}
(* token by token: 0: 1:a 1:b 1:<ff> 01:a i0e i-0e i+1e l d e *)
TokenChunks == {<<48, 58>>, <<49, 58, 97>>, <<49, 58, 98>>, <<49, 58, 255>>, <<48, 49, 58, 97>>,
  <<105, 48, 101>>, <<105, 45, 48, 101>>, <<105, 43, 49, 101>>, <<108>>, <<100>>, <<101>>}

Viable(b) ==
  LET s == Run(b, -1, -1) IN
    \/ s.st = "ok"                                     \* one byte too many
    \/ s.st = "EOF" /\ ~(s.c = <<>> /\ s.v # <<>> /\ s.p <= Len(b))
    \/ s.st = "ExpectedChar"                           \* inside a number
       /\ \A i \in (s.p + (IF b[s.p] = CI THEN 1 ELSE 0))..Len(b) : Digit(b[i]) \/ (b[s.p] = CI /\ i = s.p + 1)

Init == inp = <<>> /\ k = 0
Next == k < L /\ Viable(inp) /\ k' = k + 1 /\ \E x \in Chunks : inp' = inp \o x
Spec == Init /\ [][Next]_vars

Out == IF Emit THEN PrintT("@" \o ToJson([in |-> inp])) ELSE TRUE

Agree ==
  LET s == Run(inp, -1, -1) d == Denote(inp) IN
    /\ (s.st = "ok") = d.ok
    /\ d.ok => s.v = <<d.v>> /\ s.n = d.n
Limits ==
  LET d == Denote(inp) IN
  \A dl \in {-1, 0, 1, 2} : \A il \in {-1, 0, 1, 2, 3} :
    LET s == Run(inp, dl, il) IN
      IF ~d.ok THEN s.st # "ok"
      ELSE IF OverDepth(d, dl) \/ OverItems(d, il)
      THEN \/ s.st = "DepthLimit" /\ OverDepth(d, dl)
           \/ s.st = "ItemLimit" /\ OverItems(d, il)
      ELSE s.st = "ok" /\ s.v = <<d.v>>
RoundTrip ==
  LET d == Denote(inp) IN d.ok =>
    LET b == Enc(d.v) e == Denote(b) IN
      /\ IsValue(d.v)
      /\ e.ok /\ e.v = d.v
      /\ Len(b) <= Len(inp)          \* canonical is never longer
      /\ e.m <= d.m /\ e.n <= d.n
(* every state is looked at, and printed *)
Inv == Out /\ Agree /\ RoundTrip /\ Limits
=============================================================================
