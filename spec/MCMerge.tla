------------------------------ MODULE MCMerge ------------------------------
(* Histories of links parsed into the same parameters: what was there stays, *)
(* every tracker has a tier, and the order of two links without common       *)
(* parameters shows only where the parameters overlap.                       *)
EXTENDS Magnet, Json, TLC
CONSTANTS Depth, Emit
VARIABLES s, last, hist
B(t) == CASE t = "tt" -> KTr \o <<61, 97, 38>> \o KTr \o <<61, 98, 38>>
          [] t = "t" -> KTr \o <<61, 99, 38>>
          [] t = "n" -> KDn \o <<61, 100, 38>>
          [] t = "e" -> KDn \o <<61, 38>>
          [] t = "w" -> KWs \o <<61, 101, 38>>
          [] t = "s0" -> KSo \o <<61, 48, 44, 51, 38>>
          [] t = "s1" -> KSo \o <<61, 49, 45, 50, 38>>
          [] t = "p" -> KPe \o <<61, 49, 46, 50, 46, 51, 46, 52, 58, 56, 38>>
          [] t = "d" -> KDht \o <<61, 104, 58, 49, 38>>
          [] t = "x" -> KPe \o <<61, 120, 38>>
          [] t = "tx" -> KTr \o <<61, 102, 38>> \o KPe \o <<61, 120, 38>>
          [] t = "none" -> <<>>
Kinds == {"tt", "t", "n", "e", "w", "s0", "s1", "p", "d", "x", "tx", "none"}
Hash(i) == KXt \o <<61>> \o UrnBtih \o [j \in 1..40 |-> IF j = 40 THEN 48 + i ELSE 49]
Uri(t) == <<109,97,103,110,101,116,58,63>> \o B(t) \o Hash(Len(hist))
Start0 == [ih |-> [i \in 1..20 |-> 0], name |-> <<>>, tr |-> <<>>, tiers |-> <<>>, ws |-> <<>>, pe |-> <<>>, dht |-> <<>>, prio |-> <<>>]
Other0 == [Start0 EXCEPT !.name = <<122>>, !.tr = <<<<120>>, <<121>>>>, !.tiers = <<5>>, !.ws = <<<<119>>>>, !.prio = <<3, 1, 0, 1, 3>>]
Init == s \in {Start0, Other0} /\ hist = <<>> /\ last = s
Next == /\ Len(hist) < Depth
        /\ \E t \in Kinds :
             LET w == Link(Uri(t)) IN
             /\ hist' = Append(hist, [q |-> s, u |-> Uri(t)])
             /\ last' = s
             /\ s' = IF w.must = "err" THEN s ELSE Merge(s, w)
Spec == Init /\ [][Next]_<<s, last, hist>>
Inv ==
  /\ Kept(last, s)
  /\ (hist # <<>> /\ Len(s.tr) > Len(last.tr)) => Len(s.tiers) = Len(s.tr)
  /\ hist # <<>> =>
       LET w == Link(hist[Len(hist)].u) IN
       /\ (w.must = "err") = (s = last) \/ w.must = "ok"
       /\ w.must = "ok" =>
            /\ s.ih[20] = 16 + Len(hist) - 1
            (* into empty parameters: the link itself *)
            /\ LET m == Merge(Start0, w) IN
                 /\ m.tr = w.tr /\ m.tiers = [i \in 1..Len(w.tr) |-> i - 1] /\ m.name = w.name /\ m.ws = w.ws
                 /\ {i \in 1..Len(m.prio) : m.prio[i] = 2} = {i + 1 : i \in w.sel}
                 /\ \A i \in 1..Len(m.prio) : m.prio[i] \in {0, 2}
  /\ (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson([q |-> hist[1].q, us |-> [i \in 1..Depth |-> hist[i].u]]))
=============================================================================
