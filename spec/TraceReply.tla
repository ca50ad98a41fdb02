----------------------------- MODULE TraceReply -----------------------------
(* Recorded histories of a storage and one reply, explained by Reply.        *)
EXTENDS Reply, TraceLib
VARIABLES c, l, s, rp
Cfg == Cases[c].cfg
EpBits(ep) == LET h == Cfg.eps[ep].h IN {(h[1] + 256 * h[2]) % 2048, (h[3] + 256 * h[4]) % 2048}
V4(ep) == Cfg.eps[ep].v4
(* all [s, rp] an event may lead to *)
Both(S, q) == {[s |-> x, rp |-> q] : x \in S}
StepOf(e) ==
  IF e.r.k # "ok" THEN {}
  ELSE CASE e.f = "announce" -> Both(Announce(s, Cfg, e.ih, e.ep, V4(e.ep), e.name, e.seed, EpBits(e.ep)), rp)
         [] e.f = "iput" -> Both(PutImm(s, Cfg, Cfg.tg, e.t, e.v, RangeOf(e.ips)), rp)
         [] e.f = "mput" -> Both(PutMut(s, Cfg, Cfg.tg, e.t, e.v, e.sig, e.seq, e.pk, RangeOf(e.ips)), rp)
         [] e.f = "reset" -> Both({s}, e.r.q)
         [] e.f = "lookup" ->
              IF e.r.rest /\ LookupMay(s, Cfg, e.ih, V4(e.req), e.ns, rp, e.r.q, e.r.failed) THEN Both({s}, e.r.q) ELSE {}
         [] e.f = "scrape" ->
              IF e.r.rest /\ ScrapeMay(s, e.ih, V4(e.req), rp, e.r.q, e.r.failed) THEN Both({s}, e.r.q) ELSE {}
         [] e.f = "iget" -> IF e.r.rest /\ e.r.q = IGetInto(s, e.t, rp) THEN Both({s}, e.r.q) ELSE {}
         [] e.f = "mget" ->
              IF e.r.rest /\ e.r.q = MGetInto(s, e.t, e.seq, e.force, Cfg.zero, rp) THEN Both({s}, e.r.q) ELSE {}
         (* a reply that is no dictionary *)
         [] e.f = "other" -> IF e.r.same /\ (Has(s.tor, e.ih) => e.r.failed) THEN Both({s}, rp) ELSE {}
         [] OTHER -> {}
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = NewStore(Cases[c].cfg.nids) /\ rp = NoReply
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ \E n \in StepOf(Cases[c].ev[l]) : s' = n.s /\ rp' = n.rp
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l, s, rp>>
Spec == Init /\ [][Next]_<<c, l, s, rp>>
=============================================================================
