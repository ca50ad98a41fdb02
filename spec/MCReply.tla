------------------------------ MODULE MCReply ------------------------------
(* One reply filled by several fetches of a small store: entries never       *)
(* vanish, each is that of the last fetch that had one, and a fetch of what  *)
(* is not stored changes nothing.  Printed for the replay.                   *)
EXTENDS Reply, Json
CONSTANTS Depth, Emit
VARIABLES rp, hist, last
vars == <<rp, hist, last>>
Cfg == [mt |-> 9, mp |-> 9, mr |-> 9, mi |-> 9]
P(sd, b) == [seed |-> sd, bits |-> {b}]
(* the store the driver sets up as well *)
S0 == [NewStore({<<0>>}) EXCEPT
        !.tor = (1 :> [name |-> <<65>>, p4 |-> (1 :> P(FALSE, 1)) @@ (3 :> P(TRUE, 2)), p6 |-> (2 :> P(FALSE, 3))])
             @@ (2 :> [name |-> <<>>, p4 |-> (5 :> P(TRUE, 4)), p6 |-> Empty]),
        !.imm = (1 :> [v |-> 1, ann |-> {}]),
        !.mut = (1 :> [v |-> 2, sig |-> 1, seq |-> 5, key |-> 1, ann |-> {}]) @@ (2 :> [v |-> 3, sig |-> 2, seq |-> 6, key |-> 2, ann |-> {}])]
Ops == {
  [f |-> "lookup", ih |-> 1, ns |-> FALSE, req |-> 1], [f |-> "lookup", ih |-> 1, ns |-> TRUE, req |-> 1],
  [f |-> "lookup", ih |-> 1, ns |-> FALSE, req |-> 2], [f |-> "lookup", ih |-> 2, ns |-> FALSE, req |-> 1],
  [f |-> "lookup", ih |-> 3, ns |-> FALSE, req |-> 1],
  [f |-> "scrape", ih |-> 1, ns |-> FALSE, req |-> 1], [f |-> "scrape", ih |-> 2, ns |-> FALSE, req |-> 1],
  [f |-> "iget", t |-> 1], [f |-> "iget", t |-> 2],
  [f |-> "mget", t |-> 1, seq |-> 1, force |-> TRUE], [f |-> "mget", t |-> 2, seq |-> 4, force |-> FALSE],
  [f |-> "mget", t |-> 1, seq |-> 5, force |-> FALSE], [f |-> "mget", t |-> 3, seq |-> 1, force |-> TRUE],
  [f |-> "reset", w |-> 0], [f |-> "reset", w |-> 1], [f |-> "reset", w |-> 2] }
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Seqs(S \ {x})} : x \in S}
Stale == [NoReply EXCEPT !.n = <<<<90>>>>, !.vals = <<<<0>>>>, !.v = <<6>>, !.k = <<4>>]
After(o) ==
  CASE o.f = "reset" -> {CASE o.w = 0 -> NoReply [] o.w = 1 -> Stale [] OTHER -> [Stale EXCEPT !.bad = TRUE, !.vals = <<>>]}
    [] o.f = "lookup" ->
         LET v4 == o.req = 1 IN
         IF ~Has(S0.tor, o.ih) \/ rp.bad THEN {rp}
         ELSE {[rp EXCEPT !.n = Named(S0, o.ih, rp), !.vals = <<Listed(rp) \o q>>] : q \in Seqs(Eligible(S0, o.ih, v4, o.ns))}
    [] o.f = "scrape" ->
         {[rp EXCEPT !.n = Named(S0, o.ih, rp), !.sd = <<<<>>>>, !.pe = <<<<>>>>]}
    [] o.f = "iget" -> {IGetInto(S0, o.t, rp)}
    [] o.f = "mget" -> {MGetInto(S0, o.t, o.seq, o.force, 3, rp)}
Init == rp = NoReply /\ hist = <<>> /\ last = NoReply
Next == Len(hist) < Depth /\ \E o \in Ops : rp' \in After(o) /\ hist' = Append(hist, o) /\ last' = rp
Spec == Init /\ [][Next]_vars
O == hist[Len(hist)]
Inv ==
  /\ (hist # <<>> /\ O.f # "reset") =>
       /\ \A f \in {"n", "vals", "sd", "pe", "seq", "v", "sig", "k"} : last[f] # <<>> => rp[f] # <<>>
       /\ O.f = "lookup" => /\ LookupMay(S0, Cfg, O.ih, O.req = 1, O.ns, last, rp, last.bad /\ Has(S0.tor, O.ih))
                            /\ rp.v = last.v /\ rp.k = last.k
                            /\ Len(Listed(rp)) >= Len(Listed(last))
       /\ O.f = "mget" => (rp.sig = <<1>> => rp.sig = last.sig \/ (rp.k = <<1>> /\ rp.v = <<2>> /\ rp.seq = <<5>>))
       /\ O.f \in {"iget", "mget"} => rp.vals = last.vals /\ rp.n = last.n
  /\ (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson([h |-> hist]))
=============================================================================
