------------------------------ MODULE TraceLib ------------------------------
(* Recorded cases: one JSON line per case, [cfg |-> .., ev |-> <<..>>].      *)
(* A trace specification walks each case event by event; a case whose every  *)
(* event is explained is reported with Done, all others are violations.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Done(c) == PrintT(<<"DONE", c>>)
=============================================================================
