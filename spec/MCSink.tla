------------------------------- MODULE MCSink -------------------------------
(* The encoder, chunk by chunk as in the code, against every short sequence  *)
(* of answers of a writer; printed for the replay in the code.               *)
EXTENDS Sink, Json, TLC
CONSTANTS Max, Emit
VARIABLES v, s, todo, cur, hist
vars == <<v, s, todo, cur, hist>>

I(n) == [t |-> "i", n |-> n]
S(b) == [t |-> "s", b |-> b]
Docs == <<
  I(<<45, 49, 50>>), S(<<>>), S(<<97, 98, 99>>), [t |-> "l", l |-> <<>>],
  [t |-> "l", l |-> <<I(<<48>>), S(<<255>>)>>],
  [t |-> "d", d |-> <<[k |-> <<>>, v |-> S(<<120>>)], [k |-> <<97, 98>>, v |-> [t |-> "l", l |-> <<[t |-> "d", d |-> <<>>]>>]]>>] >>

(* what the encoder writes in one go *)
RECURSIVE Chunks(_), ListChunks(_, _), DictChunks(_, _)
StrChunks(b) == <<NatDigits(Len(b)), <<CCOLON>>>> \o (IF b = <<>> THEN <<>> ELSE <<b>>)
Chunks(x) ==
  CASE x.t = "i" -> << <<CI>>, x.n, <<CE>> >>
    [] x.t = "s" -> StrChunks(x.b)
    [] x.t = "l" -> << <<CL>> >> \o ListChunks(x.l, 1) \o << <<CE>> >>
    [] x.t = "d" -> << <<CD>> >> \o DictChunks(x.d, 1) \o << <<CE>> >>
ListChunks(l, i) == IF i > Len(l) THEN <<>> ELSE Chunks(l[i]) \o ListChunks(l, i + 1)
DictChunks(d, i) == IF i > Len(d) THEN <<>> ELSE StrChunks(d[i].k) \o Chunks(d[i].v) \o DictChunks(d, i + 1)

Answers == {"one", "two", "all", "intr", "fail", "zero"}
Init == /\ v \in 1..Len(Docs)
        /\ s = NewSink(Enc(Docs[v]))
        /\ todo = Chunks(Docs[v]) /\ cur = <<>> /\ hist = <<>>
Load == /\ s.out = "run" /\ cur = <<>> /\ todo # <<>> /\ s.saw = {}
        /\ cur' = Head(todo) /\ todo' = Tail(todo)
        /\ UNCHANGED <<v, s, hist>>
Take(n) == /\ s' \in Took(s, Len(cur), SubSeq(cur, 1, n)) /\ cur' = SubSeq(cur, n + 1, Len(cur))
(* after Max answers the writer takes everything *)
Answer ==
  /\ s.out = "run" /\ cur # <<>> /\ s.saw = {}
  /\ \E a \in IF Len(hist) < Max THEN Answers ELSE {"all"} :
       /\ CASE a = "one" -> Take(1)
            [] a = "two" -> Take(IF Len(cur) < 2 THEN Len(cur) ELSE 2)
            [] a = "all" -> Take(Len(cur))
            [] a = "zero" -> Take(0)
            [] a = "intr" -> s' \in Interrupted(s, Len(cur)) /\ cur' = cur
            [] a = "fail" -> s' \in Failed(s, Len(cur), "fail") /\ cur' = cur
       /\ hist' = IF Len(hist) < Max THEN Append(hist, a) ELSE hist
  /\ UNCHANGED <<v, todo>>
Return == /\ UNCHANGED <<v, todo, cur, hist>>
          /\ IF s.saw # {} THEN \E k \in s.saw : s' \in Gives(s, k)
             ELSE cur = <<>> /\ todo = <<>> /\ s' \in Succeeds(s)
Next == Load \/ Answer \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == s.at <= Len(s.text)
WhenOk == s.out = "ok" => s.at = Len(s.text) /\ s.saw = {}
WhenErr == s.out = "err" => s.saw # {} /\ \E i \in 1..Len(hist) : hist[i] \in {"fail", "zero"}
Out == Emit /\ s.out # "run" => PrintT("@" \o ToJson([v |-> Docs[v], h |-> hist]))
Inv == Prefix /\ WhenOk /\ WhenErr /\ Out
Ends == <>(s.out # "run")
=============================================================================
