------------------------------ MODULE Storage ------------------------------
(* The DHT storage of dht/src/storage.rs: peers per info-hash, immutable and *)
(* mutable items.  A state is a record                                       *)
(*   tor  : info-hash -> [name, p4, p6],  p4/p6 : endpoint -> [seed, bits]   *)
(*   imm  : target -> [v, ann]                                               *)
(*   mut  : target -> [v, sig, seq, key, ann]                                *)
(*   nids : own node ids                                                     *)
(*   cnt  : [torrents, peers, imm, mut], counted up and down as the code does*)
(* Each operation is given as the set of its possible successor states.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Kad

Empty == << >>      \* the function with empty domain, too
NewStore(nids) == [tor |-> Empty, imm |-> Empty, mut |-> Empty, nids |-> nids,
                   cnt |-> [torrents |-> 0, peers |-> 0, imm |-> 0, mut |-> 0]]

Has(f, x) == x \in DOMAIN f
With(f, x, y) == (x :> y) @@ f
Without(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]

(******************************** peers *************************************)
Peers(s, ih, v4) ==
  IF Has(s.tor, ih) THEN (IF v4 THEN s.tor[ih].p4 ELSE s.tor[ih].p6) ELSE Empty
Cut(name) == IF Len(name) > 100 THEN SubSeq(name, 1, 100) ELSE name

(* cfg = [mt, mp, mr, mi]: maxima of torrents, peers, peers in a reply, items *)
Announce(s, cfg, ih, ep, v4, name, seed, bits) ==
  LET known == Has(s.tor, ih)
      t0 == IF known THEN s.tor[ih] ELSE [name |-> <<>>, p4 |-> Empty, p6 |-> Empty]
      t1 == IF t0.name = <<>> THEN [t0 EXCEPT !.name = Cut(name)] ELSE t0
      ps == IF v4 THEN t0.p4 ELSE t0.p6
      put(t) == IF v4 THEN [t EXCEPT !.p4 = With(@, ep, [seed |-> seed, bits |-> bits])]
                      ELSE [t EXCEPT !.p6 = With(@, ep, [seed |-> seed, bits |-> bits])]
  IN IF ~known /\ Cardinality(DOMAIN s.tor) >= cfg.mt THEN {s}
     ELSE IF ~Has(ps, ep) /\ Cardinality(DOMAIN ps) >= cfg.mp
     (* dropped; whether its name is taken over all the same is left open *)
     THEN IF known THEN {s, [s EXCEPT !.tor = With(@, ih, t1)]}
          ELSE {s}
     ELSE {[s EXCEPT !.tor = With(@, ih, put(t1)),
                     !.cnt.torrents = @ + (IF known THEN 0 ELSE 1),
                     !.cnt.peers = @ + (IF Has(ps, ep) THEN 0 ELSE 1)]}

Eligible(s, ih, v4, noSeed) ==
  LET ps == Peers(s, ih, v4) IN {e \in DOMAIN ps : ~(noSeed /\ ps[e].seed)}
ReplyMax(cfg, v4) == IF v4 THEN cfg.mr ELSE cfg.mr \div 4
MinN(a, b) == IF a < b THEN a ELSE b

(* May a lookup list exactly these endpoints (a sequence)? *)
ListOk(s, cfg, ih, v4, noSeed, vals) ==
  LET el == Eligible(s, ih, v4, noSeed)
      got == {vals[i] : i \in 1..Len(vals)}
  IN /\ got \subseteq el
     /\ Cardinality(got) = Len(vals)
     /\ Len(vals) = MinN(ReplyMax(cfg, v4), Cardinality(el))
Name(s, ih) == IF Has(s.tor, ih) THEN (IF s.tor[ih].name = <<>> THEN <<>> ELSE <<s.tor[ih].name>>) ELSE <<>>

Full(s, cfg, ih, v4, ep) ==
  IF Has(s.tor, ih)
  THEN LET ps == Peers(s, ih, v4) IN Cardinality(DOMAIN ps) >= cfg.mp /\ ~Has(ps, ep)
  ELSE Cardinality(DOMAIN s.tor) >= cfg.mt

(* bits of the scrape filters *)
FilterBits(s, ih, v4, seeds) ==
  LET ps == Peers(s, ih, v4) IN UNION {ps[e].bits : e \in {x \in DOMAIN ps : ps[x].seed = seeds}}

(******************************** items *************************************)
Score(ann, target, nids) == (Cardinality(ann) \div 5) - MinDistExp(target, nids)
(* tb: target -> its 20 bytes *)
Least(table, tb, nids) ==
  LET sc == [x \in DOMAIN table |-> Score(table[x].ann, tb[x], nids)]
  IN {x \in DOMAIN table : \A y \in DOMAIN table : sc[x] <= sc[y]}

(* the tables a new target may go into: room made by dropping a least one *)
Room(table, mi, tb, nids) ==
  IF Cardinality(DOMAIN table) < mi THEN {table}
  ELSE {Without(table, x) : x \in Least(table, tb, nids)}

PutImm(s, cfg, tb, t, v, ips) ==
  IF Has(s.imm, t) THEN {[s EXCEPT !.imm[t].ann = @ \cup ips]}
  ELSE IF cfg.mi = 0 THEN {s}
  ELSE {[s EXCEPT !.imm = With(tab, t, [v |-> v, ann |-> ips]),
                  !.cnt.imm = @ + 1 - (Cardinality(DOMAIN s.imm) - Cardinality(DOMAIN tab))]
        : tab \in Room(s.imm, cfg.mi, tb, s.nids)}

PutMut(s, cfg, tb, t, v, sig, seq, key, ips) ==
  IF Has(s.mut, t)
  THEN LET old == s.mut[t]
           new == IF old.seq < seq THEN [old EXCEPT !.v = v, !.sig = sig, !.seq = seq] ELSE old
       IN {[s EXCEPT !.mut[t] = [new EXCEPT !.ann = @ \cup ips]]}
  ELSE IF cfg.mi = 0 THEN {s}
  ELSE {[s EXCEPT !.mut = With(tab, t, [v |-> v, sig |-> sig, seq |-> seq, key |-> key, ann |-> ips]),
                  !.cnt.mut = @ + 1 - (Cardinality(DOMAIN s.mut) - Cardinality(DOMAIN tab))]
        : tab \in Room(s.mut, cfg.mi, tb, s.nids)}

(* What a fetch of a stored mutable item hands out; zero: the number 0. *)
Hands(item, seq, force, zero) == force \/ (zero <= seq /\ seq < item.seq)

(*************************** invariants of a state **************************)
Bounded(s, cfg) ==
  /\ Cardinality(DOMAIN s.tor) <= cfg.mt
  /\ \A t \in DOMAIN s.tor : /\ Cardinality(DOMAIN s.tor[t].p4) <= cfg.mp
                             /\ Cardinality(DOMAIN s.tor[t].p6) <= cfg.mp
                             /\ Len(s.tor[t].name) <= 100
  /\ Cardinality(DOMAIN s.imm) <= cfg.mi
  /\ Cardinality(DOMAIN s.mut) <= cfg.mi

RECURSIVE SumPeers(_, _)
SumPeers(s, T) ==
  IF T = {} THEN 0
  ELSE LET t == CHOOSE x \in T : TRUE IN
    Cardinality(DOMAIN s.tor[t].p4) + Cardinality(DOMAIN s.tor[t].p6) + SumPeers(s, T \ {t})
Counted(s) ==
  /\ s.cnt.torrents = Cardinality(DOMAIN s.tor)
  /\ s.cnt.peers = SumPeers(s, DOMAIN s.tor)
  /\ s.cnt.imm = Cardinality(DOMAIN s.imm)
  /\ s.cnt.mut = Cardinality(DOMAIN s.mut)

(* Is the reply of a lookup possible at all, and can each endpoint occur? *)
Fair(s, cfg, ih, v4, noSeed) ==
  LET el == Eligible(s, ih, v4, noSeed)
      k == MinN(ReplyMax(cfg, v4), Cardinality(el))
  IN k > 0 => UNION {S \in SUBSET el : Cardinality(S) = k} = el
=============================================================================
