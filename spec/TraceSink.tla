------------------------------ MODULE TraceSink ------------------------------
(* Recorded dialogues of the encoder with a writer, explained by Sink.  The  *)
(* first event names the value, each further one is an answer of the writer, *)
(* the last one what the call returned.                                      *)
EXTENDS Sink, TraceLib
VARIABLES c, l, s
StepOf(e) ==
  CASE e.f = "open" -> IF e.r.k = "ok" THEN {NewSink(Enc(e.v))} ELSE {}
    [] e.f = "write" ->
         IF e.r.a = "took" THEN Took(s, e.r.n, e.r.b)
         ELSE IF e.r.a = "intr" THEN Interrupted(s, e.r.n)
         ELSE Failed(s, e.r.n, e.r.a)
    [] e.f = "close" ->
         IF e.r.k = "ok" THEN Succeeds(s) ELSE IF e.r.k = "err" THEN Gives(s, e.r.e) ELSE {}
    [] OTHER -> {}
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = NewSink(<<>>)
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in StepOf(Cases[c].ev[l]) : s' = n
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ s.out # "run" /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
