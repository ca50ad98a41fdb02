---------------------------- MODULE TraceStorage ----------------------------
(* Recorded histories of the DHT storage, explained by Storage.              *)
(* Every event is mapped to the set of states it may lead to; none: violation*)
EXTENDS Storage, TraceLib
VARIABLES c, l, s

Range(q) == {q[i] : i \in 1..Len(q)}
Cfg == Cases[c].cfg
EpBits(ep) == LET h == Cfg.eps[ep].h IN {(h[1] + 256 * h[2]) % 2048, (h[3] + 256 * h[4]) % 2048}
V4(ep) == Cfg.eps[ep].v4
Only(ok) == IF ok THEN {s} ELSE {}

(* C06 *)
LookupOk(e) ==
  /\ ListOk(s, Cfg, e.ih, V4(e.req), e.ns, e.r.vals)
  /\ e.r.n = Name(s, e.ih)
  /\ e.r.rest
ManyOk(e) ==
  LET el == Eligible(s, e.ih, V4(e.req), e.ns)
      k == MinN(ReplyMax(Cfg, V4(e.req)), Cardinality(el))
  IN /\ e.r.min = k /\ e.r.max = k /\ ~e.r.dups
     /\ Range(e.r.union) = (IF k = 0 THEN {} ELSE el)
(* C07 *)
FullOk(e) ==
  /\ e.r.full = Full(s, Cfg, e.ih, V4(e.req), e.req)
  /\ IF e.sc THEN e.r.vals = <<>> ELSE ListOk(s, Cfg, e.ih, V4(e.req), e.ns, e.r.vals)
(* C08 *)
ScrapeOk(e) ==
  IF Has(s.tor, e.ih)
  THEN /\ e.r.lens = <<256, 256>>
       /\ Range(e.r.sd) = FilterBits(s, e.ih, V4(e.req), TRUE)
       /\ Range(e.r.pe) = FilterBits(s, e.ih, V4(e.req), FALSE)
       /\ ~e.r.hasvals
  ELSE e.r.sd = <<>> /\ e.r.pe = <<>> /\ ~e.r.hasvals

(* Items.  In mode "weak" (C09, C10) any stored item may have gone at a put; *)
(* in mode "strict" (C11) exactly those the specification lets go.           *)
Restrict(f, D) == [x \in DOMAIN f \cap D |-> f[x]]
IPut(e) ==
  LET here == Range(e.r.here)
      ips == Range(e.ips)
  IN IF Cfg.mode = "strict"
     THEN {n \in PutImm(s, Cfg, Cfg.tg, e.t, e.v, ips) : DOMAIN n.imm = here}
     ELSE IF ~(here \subseteq DOMAIN s.imm \cup {e.t}) THEN {}
     ELSE LET n == IF Has(s.imm, e.t) THEN s.imm ELSE With(s.imm, e.t, [v |-> e.v, ann |-> {}])
          IN {[s EXCEPT !.imm = Restrict(n, here)]}
MPut(e) ==
  LET here == Range(e.r.here)
      ips == Range(e.ips)
      big == [Cfg EXCEPT !.mi = 1000000]
  IN IF Cfg.mode = "strict"
     THEN {n \in PutMut(s, Cfg, Cfg.tg, e.t, e.v, e.sig, e.seq, e.pk, ips) : DOMAIN n.mut = here}
     ELSE IF ~(here \subseteq DOMAIN s.mut \cup {e.t}) THEN {}
     ELSE {[n EXCEPT !.mut = Restrict(n.mut, here)] :
             n \in PutMut(s, big, Cfg.tg, e.t, e.v, e.sig, e.seq, e.pk, {})}
IGetOk(e) ==
  /\ e.r.rest
  /\ IF Has(s.imm, e.t) THEN e.r.found /\ e.r.v = <<s.imm[e.t].v>>
     ELSE ~e.r.found /\ e.r.v = <<>>
MGetOk(e) ==
  /\ e.r.rest
  /\ IF Has(s.mut, e.t)
     THEN LET i == s.mut[e.t] IN
          /\ e.r.found /\ e.r.seq = <<i.seq>>
          /\ IF Hands(i, e.seq, e.force, Cfg.zero)
             THEN e.r.v = <<i.v>> /\ e.r.sig = <<i.sig>> /\ e.r.pk = <<i.key>>
             ELSE e.r.v = <<>> /\ e.r.sig = <<>> /\ e.r.pk = <<>>
     ELSE ~e.r.found /\ e.r.seq = <<>> /\ e.r.v = <<>> /\ e.r.sig = <<>> /\ e.r.pk = <<>>
MSeqOk(e) ==
  IF Has(s.mut, e.t) THEN e.r.found /\ e.r.seq = <<s.mut[e.t].seq>>
  ELSE ~e.r.found /\ e.r.seq = <<>>

Step(e) ==
  IF e.r.k # "ok" THEN {}
  ELSE CASE e.f = "announce" -> Announce(s, Cfg, e.ih, e.ep, V4(e.ep), e.name, e.seed, EpBits(e.ep))
         [] e.f = "lookup" -> Only(LookupOk(e))
         [] e.f = "many" -> Only(ManyOk(e))
         [] e.f = "full" -> Only(FullOk(e))
         [] e.f = "scrape" -> Only(ScrapeOk(e))
         [] e.f = "iput" -> IPut(e)
         [] e.f = "mput" -> MPut(e)
         [] e.f = "iget" -> Only(IGetOk(e))
         [] e.f = "mget" -> Only(MGetOk(e))
         [] e.f = "mseq" -> Only(MSeqOk(e))
         [] e.f = "nodes" -> {[s EXCEPT !.nids = e.ids]}
         (* C12: what is counted is what is there *)
         [] e.f = "audit" -> Only(e.r.c = e.r.held /\ e.r.reset = <<0, 0, 0, 0>>)
         (* a call whose effects this property does not look at *)
         [] e.f = "free" -> {s}
         [] OTHER -> {}

Init == c \in 1..Len(Cases) /\ l = 1 /\ s = NewStore(Cases[c].cfg.nids)
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in Step(Cases[c].ev[l]) : s' = n
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s>>
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
