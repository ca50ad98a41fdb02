----------------------------- MODULE MCStorage -----------------------------
(* All histories of a small store.  `hist` is the shortest history leading   *)
(* to a state (hidden by the VIEW); it is printed for the replay in the code.*)
EXTENDS Storage, Json
CONSTANTS Part,        \* "peers", "imm" or "mut": which operations
          MT, MP, MR, MI, Emit
VARIABLES s, hist
vars == <<s, hist>>

cfg == [mt |-> MT, mp |-> MP, mr |-> MR, mi |-> MI]
(* three targets at bucket distances 0, 3 and 3 of the only node id, and one *)
(* of distance 1                                                             *)
Z == [i \in 1..20 |-> 0]
tb == <<[Z EXCEPT ![20] = 1], [Z EXCEPT ![20] = 8], [Z EXCEPT ![20] = 9], [Z EXCEPT ![20] = 2]>>
Ips == 1..5

Names == {<<>>, <<97>>, <<98>>}
PeerOps == [f : {"announce"}, ih : 1..2, ep : 1..4, name : Names, seed : BOOLEAN]
ImmOps == [f : {"iput"}, t : 1..4, v : {1, 2}, ips : {{1}, {2}, Ips}]
MutOps == [f : {"mput"}, t : 1..2, v : {1, 2}, sig : {1, 2}, seq : {1, 2, 3}, key : {1, 2}, ips : {{1}, Ips}]
Ops == CASE Part = "peers" -> PeerOps [] Part = "imm" -> ImmOps [] OTHER -> MutOps

(* endpoints 1, 2 are IPv4, 3, 4 are IPv6; 1 and 2 share a filter bit *)
BitsOf == <<{1, 2}, {2, 3}, {4, 5}, {1, 6}>>
After(o) ==
  CASE o.f = "announce" -> Announce(s, cfg, o.ih, o.ep, o.ep <= 2, o.name, o.seed, BitsOf[o.ep])
    [] o.f = "iput" -> PutImm(s, cfg, tb, o.t, o.v, o.ips)
    [] o.f = "mput" -> PutMut(s, cfg, tb, o.t, o.v, o.sig, o.seq, o.key, o.ips)

Init == s = NewStore(<<Z>>) /\ hist = <<>>
Next == \E o \in Ops : \E n \in After(o) : n # s /\ s' = n /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
View == s

Out == IF ~Emit THEN TRUE
       ELSE IF hist = <<>> THEN PrintT("@" \o ToJson([h |-> hist, ops |-> Ops, cfg |-> cfg, tb |-> tb]))
       ELSE PrintT("@" \o ToJson([h |-> hist]))
PeersOk ==
  \A ih \in 1..2 : \A v4 \in BOOLEAN : \A ns \in BOOLEAN :
    /\ Fair(s, cfg, ih, v4, ns) \/ Cardinality(Eligible(s, ih, v4, ns)) > 8
    /\ Eligible(s, ih, v4, TRUE) \subseteq Eligible(s, ih, v4, FALSE)
    /\ FilterBits(s, ih, v4, TRUE) \cup FilterBits(s, ih, v4, FALSE)
         = UNION {BitsOf[e] : e \in Eligible(s, ih, v4, FALSE)}
Inv == Out /\ Bounded(s, cfg) /\ Counted(s) /\ PeersOk

(* C09: forward only; value, signature and number change together *)
MutForward ==
  [][\A t \in DOMAIN s.mut \cap DOMAIN s'.mut :
       LET a == s.mut[t] b == s'.mut[t] IN
         /\ b.seq >= a.seq /\ b.key = a.key
         /\ (b.seq = a.seq => b.v = a.v /\ b.sig = a.sig)]_vars
(* C10 *)
ImmFixed == [][\A t \in DOMAIN s.imm \cap DOMAIN s'.imm : s'.imm[t].v = s.imm[t].v]_vars
(* C11: at most one leaves, for a new one, and a least one *)
EvictOneOf(old, new) ==
  LET lost == DOMAIN old \ DOMAIN new gained == DOMAIN new \ DOMAIN old IN
    /\ Cardinality(lost) <= 1 /\ Cardinality(gained) <= 1
    /\ (lost # {} => gained # {} /\ Cardinality(DOMAIN old) = MI /\ lost \subseteq Least(old, tb, s.nids))
EvictOne == [][EvictOneOf(s.imm, s'.imm) /\ EvictOneOf(s.mut, s'.mut)]_vars
(* C07: stored peers and torrents stay *)
PeersStay ==
  [][\A ih \in DOMAIN s.tor : ih \in DOMAIN s'.tor
       /\ DOMAIN s.tor[ih].p4 \subseteq DOMAIN s'.tor[ih].p4
       /\ DOMAIN s.tor[ih].p6 \subseteq DOMAIN s'.tor[ih].p6
       /\ (s.tor[ih].name # <<>> => s'.tor[ih].name = s.tor[ih].name)]_vars
=============================================================================
