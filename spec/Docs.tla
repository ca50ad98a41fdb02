-------------------------------- MODULE Docs --------------------------------
(* What is saved to and read from bencoded documents: DHT node state         *)
(* (dht/src/state.rs), settings (settings.rs); compact addresses             *)
(* (detail.rs); required keys of messages (msg.rs).                          *)
EXTENDS Bencode, FiniteSets

(******************************* addresses **********************************)
(* An address is its octets: 4 or 16; with a port, 6 or 18.                  *)
Width(kind) == CASE kind = "v4" -> 4 [] kind = "v6" -> 16 [] kind = "v4s" -> 6 [] kind = "v6s" -> 18
(* What reading `kind` at position p (0-based) gives: <<>> if too short. *)
ReadAt(b, p, kind) == IF p + Width(kind) <= Len(b) THEN <<SubSeq(b, p + 1, p + Width(kind))>> ELSE <<>>

(*************************** dictionary access ******************************)
Field(v, key) == IF v.t # "d" THEN <<>>
                 ELSE LET S == {i \in 1..Len(v.d) : v.d[i].k = key}
                      IN IF S = {} THEN <<>> ELSE <<v.d[CHOOSE i \in S : TRUE].v>>
IsStr(v, lens) == IF v.t = "s" THEN Len(v.b) \in lens ELSE FALSE

(* the well-formed entries of a list, in order *)
Keep(v, lens) ==
  IF v = <<>> THEN <<>>
  ELSE IF v[1].t # "l" THEN <<>>
  ELSE LET q == SelectSeq(v[1].l, LAMBDA x : IsStr(x, lens)) IN [i \in 1..Len(q) |-> q[i].b]

(******************************* node state *********************************)
(* [nids |-> sequence of 20 id bytes and the address, nodes, nodes6 |->      *)
(*  sequences of addresses with port]                                        *)
KNodeId == <<110, 111, 100, 101, 45, 105, 100>>
KNodes == <<110, 111, 100, 101, 115>>
KNodes6 == <<110, 111, 100, 101, 115, 54>>
Loopback == <<127, 0, 0, 1>>
NoState == [nids |-> <<>>, nodes |-> <<>>, nodes6 |-> <<>>]
ReadIds(id) == IF id # <<>> /\ IsStr(id[1], {20}) THEN <<id[1].b \o Loopback>> ELSE Keep(id, {24, 36})
ReadState(doc) ==
  [nids |-> ReadIds(Field(doc, KNodeId)),
   nodes |-> Keep(Field(doc, KNodes), {6, 18}),
   nodes6 |-> Keep(Field(doc, KNodes6), {6, 18})]

Str(b) == [t |-> "s", b |-> b]
Strs(q) == [t |-> "l", l |-> [i \in 1..Len(q) |-> Str(q[i])]]
Pair(k, q) == IF q = <<>> THEN <<>> ELSE <<[k |-> k, v |-> Strs(q)]>>
SaveState(s) == [t |-> "d", d |-> Pair(KNodeId, s.nids) \o Pair(KNodes, s.nodes) \o Pair(KNodes6, s.nodes6)]

(******************************** settings **********************************)
(* A value is a function from option numbers to decimal digits (unsigned     *)
(* 64-bit) or truth values.  Names and defaults are those of the code.       *)
Two64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>
(* What option o (current default d) may be after reading; {} is anything. *)
ReadOpt(doc, name, flag, d) ==
  LET v == Field(doc, name) IN
  IF v = <<>> THEN {d}
  ELSE IF v[1].t # "i" THEN {d}
  ELSE IF flag THEN {v[1].n # <<C0>>}
  ELSE IF v[1].n[1] = CMINUS THEN {} ELSE {v[1].n}

(***************************** required keys ********************************)
Verify(msg, names) ==
  IF msg.t # "d" THEN <<>>
  ELSE IF \E i \in 1..Len(names) : Field(msg, names[i]) = <<>> THEN <<>>
  ELSE <<[i \in 1..Len(names) |-> Field(msg, names[i])[1]]>>
=============================================================================
