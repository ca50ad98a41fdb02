------------------------------- MODULE Reply -------------------------------
(* The reply a caller hands to the fetches of the storage.  Several fetches  *)
(* may fill one reply (a DHT node answers get_peers and get with the same    *)
(* dictionary): each adds its entries, replacing those of the same keys, and *)
(* leaves all others alone; endpoints are appended to those listed.          *)
(* A reply is a record of optional entries (<<>> or <<x>>): n, vals (a       *)
(* sequence of endpoints), sd, pe (sequences of bits), seq, v, sig, k; bad:  *)
(* its `values` is no list.                                                  *)
EXTENDS Storage
NoReply == [n |-> <<>>, vals |-> <<>>, bad |-> FALSE, sd |-> <<>>, pe |-> <<>>,
            seq |-> <<>>, v |-> <<>>, sig |-> <<>>, k |-> <<>>]
RangeOf(q) == {q[i] : i \in 1..Len(q)}
Named(s, ih, rp) == LET nm == Name(s, ih) IN IF nm = <<>> THEN rp.n ELSE nm
Listed(rp) == IF rp.vals = <<>> THEN <<>> ELSE rp.vals[1]

(* May a lookup turn rp into got (failing or not)? *)
LookupMay(s, cfg, ih, v4, ns, rp, got, failed) ==
  IF ~Has(s.tor, ih) THEN ~failed /\ got = rp
  ELSE IF rp.bad THEN failed /\ got \in {rp, [rp EXCEPT !.n = Named(s, ih, rp)]}
  ELSE /\ ~failed
       /\ got = [rp EXCEPT !.n = Named(s, ih, rp), !.vals = got.vals]
       /\ Len(got.vals) = 1
       /\ LET old == Listed(rp)
              new == got.vals[1]
          IN IF Len(new) < Len(old) THEN FALSE
             ELSE /\ SubSeq(new, 1, Len(old)) = old
                  /\ ListOk(s, cfg, ih, v4, ns, SubSeq(new, Len(old) + 1, Len(new)))
ScrapeMay(s, ih, v4, rp, got, failed) ==
  /\ ~failed
  /\ IF ~Has(s.tor, ih) THEN got = rp
     ELSE /\ got = [rp EXCEPT !.n = Named(s, ih, rp), !.sd = got.sd, !.pe = got.pe]
          /\ Len(got.sd) = 1 /\ RangeOf(got.sd[1]) = FilterBits(s, ih, v4, TRUE)
          /\ Len(got.pe) = 1 /\ RangeOf(got.pe[1]) = FilterBits(s, ih, v4, FALSE)
(* What fetches of items make of it. *)
IGetInto(s, t, rp) == IF Has(s.imm, t) THEN [rp EXCEPT !.v = <<s.imm[t].v>>] ELSE rp
MGetInto(s, t, seq, force, zero, rp) ==
  IF ~Has(s.mut, t) THEN rp
  ELSE LET i == s.mut[t]
           r1 == [rp EXCEPT !.seq = <<i.seq>>]
       IN IF Hands(i, seq, force, zero) THEN [r1 EXCEPT !.v = <<i.v>>, !.sig = <<i.sig>>, !.k = <<i.key>>] ELSE r1
=============================================================================
