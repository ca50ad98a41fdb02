----------------------------- MODULE TraceDocs -----------------------------
(* Recorded saves and loads of node state and settings, reads and writes of  *)
(* addresses, and verified messages, explained by Docs.                      *)
EXTENDS Docs, TraceLib
VARIABLES c, l, s
Cfg == Cases[c].cfg
(* s: the node state / settings / stream written so far *)

Only(ok, n) == IF ok THEN {n} ELSE {}

StateEv(e) ==
  CASE (* the given state, with one list changed *)
       e.f = "sset" -> {[s EXCEPT !.nids = IF e.w = 1 THEN e.v ELSE @, !.nodes = IF e.w = 2 THEN e.v ELSE @,
                                  !.nodes6 = IF e.w = 3 THEN e.v ELSE @]}
    [] e.f = "sclear" -> {NoState}
       (* saved: what is written denotes the state *)
    [] e.f = "ssave" -> Only(ReadState(e.r.doc) = s /\ e.r.kept = s, s)
       (* saved and read back, d: directly, else through bytes *)
    [] e.f = "scycle" -> Only(e.r.st = s, s)
       (* the identifiers under some key *)
    [] e.f = "sids" -> Only(e.r.ids = ReadIds(Field(e.doc, e.key)), s)
    [] e.f = "sload" -> LET n == ReadState(e.doc) IN Only(e.r.st = n, n)
    [] OTHER -> {}

OptEv(e) ==
  CASE e.f = "oset" -> {[s EXCEPT ![e.o] = e.v]}
    [] e.f = "ocycle" -> Only(e.r.v = s, s)
    [] e.f = "oload" ->
         Only(/\ Len(e.r.v) = Len(Cfg.opts)
              /\ \A i \in 1..Len(Cfg.opts) :
                   LET p == ReadOpt(e.doc, Cfg.opts[i], Cfg.flags[i], Cfg.defs[i])
                   IN p = {} \/ e.r.v[i] \in p,
              e.r.v)
    [] OTHER -> {}

WireEv(e) ==
  CASE e.f = "write" -> LET n == [s EXCEPT !.b = @ \o e.a] IN Only(e.r.b = n.b, n)
    [] e.f = "bytes" -> {[s EXCEPT !.b = @ \o e.b]}
    [] e.f = "seek" -> {[s EXCEPT !.p = e.p]}
    [] e.f = "read" ->
         LET x == ReadAt(s.b, s.p, e.kind) IN
         IF x = <<>> THEN Only(e.r.err, s)
         ELSE Only(~e.r.err /\ e.r.a = x[1] /\ e.r.p = s.p + Width(e.kind), [s EXCEPT !.p = @ + Width(e.kind)])
    [] OTHER -> {}

MsgEv(e) ==
  CASE e.f = "verify" ->
         LET x == Verify(e.doc, e.names) IN
         Only(IF x = <<>> THEN ~e.r.okay ELSE e.r.okay /\ e.r.v = x[1], s)
    [] OTHER -> {}

StepOf(e) ==
  IF e.r.k # "ok" THEN {}
  ELSE CASE Cfg.part = "state" -> StateEv(e)
         [] Cfg.part = "opts" -> OptEv(e)
         [] Cfg.part = "wire" -> WireEv(e)
         [] Cfg.part = "msg" -> MsgEv(e)

Start0 == CASE Cfg.part = "state" -> NoState
           [] Cfg.part = "opts" -> Cfg.defs
           [] Cfg.part = "wire" -> [b |-> <<>>, p |-> 0]
           [] OTHER -> 0
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = Start0
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in StepOf(Cases[c].ev[l]) : s' = n
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
