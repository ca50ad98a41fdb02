-------------------------------- MODULE Sink --------------------------------
(* An encoding on its way into a writer that may take any part of what it is *)
(* offered, be interrupted, take nothing or fail (Value::encode and          *)
(* ValueRef::encode into std::io::Write).                                    *)
(*   s = [text (the encoding), at (bytes taken so far),                      *)
(*        saw (what the writer reported), out ("run", "ok", "err")]          *)
EXTENDS Bencode, FiniteSets
NewSink(text) == [text |-> text, at |-> 0, saw |-> {}, out |-> "run"]
Rest(s) == SubSeq(s.text, s.at + 1, Len(s.text))

(* The answers of a writer that is offered n bytes: the states after them.   *)
Took(s, n, b) ==
  IF s.out # "run" \/ s.at + n > Len(s.text) \/ Len(b) > n THEN {}
  ELSE IF b # SubSeq(s.text, s.at + 1, s.at + Len(b)) THEN {}
  ELSE {[s EXCEPT !.at = @ + Len(b), !.saw = IF b = <<>> /\ n > 0 THEN @ \cup {"zero"} ELSE @]}
Interrupted(s, n) == IF s.out # "run" \/ s.at + n > Len(s.text) THEN {} ELSE {s}
Failed(s, n, kind) == IF s.out # "run" \/ s.at + n > Len(s.text) THEN {} ELSE {[s EXCEPT !.saw = @ \cup {kind}]}
(* The end of the call. *)
Succeeds(s) == IF s.out = "run" /\ s.at = Len(s.text) THEN {[s EXCEPT !.out = "ok"]} ELSE {}
Gives(s, kind) == IF s.out = "run" /\ s.saw # {} /\ (kind \in s.saw \/ "zero" \in s.saw) THEN {[s EXCEPT !.out = "err"]} ELSE {}
=============================================================================
