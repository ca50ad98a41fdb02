------------------------------- MODULE Magnet -------------------------------
(* Magnet links (src/magnet_uri.rs), from the characters of the link to the  *)
(* parameters it stands for.                                                 *)
EXTENDS Text

(********************************* the link *********************************)
IsMagnet(b) == Len(b) >= 7 /\ [i \in 1..7 |-> Lower(b[i])] = <<109, 97, 103, 110, 101, 116, 58>>
RECURSIVE StripL(_) RECURSIVE StripR(_)
StripL(b) == IF b # <<>> /\ b[1] <= 32 THEN StripL(Tail(b)) ELSE b
StripR(b) == IF b # <<>> /\ b[Len(b)] <= 32 THEN StripR(SubSeq(b, 1, Len(b) - 1)) ELSE b
(* what URLs ignore *)
Tidy(b) == SelectSeq(StripL(StripR(b)), LAMBDA c : c \notin {9, 10, 13})
QueryOf(b) == (* b: after the scheme *)
  LET h == FindByte(b, 35, 1)
      t == IF h = 0 THEN b ELSE SubSeq(b, 1, h - 1)
      q == FindByte(t, 63, 1)
  IN IF q = 0 THEN <<>> ELSE SubSeq(t, q + 1, Len(t))
RECURSIVE Fields(_, _)
Fields(b, c) == LET p == FindByte(b, c, 1) IN
  IF p = 0 THEN <<b>> ELSE <<SubSeq(b, 1, p - 1)>> \o Fields(SubSeq(b, p + 1, Len(b)), c)
Decode(s) == Lossy(FormDecode(s))
PairOf(f) == LET p == FindByte(f, 61, 1) IN
  IF p = 0 THEN [k |-> Decode(f), v |-> <<>>]
  ELSE [k |-> Decode(SubSeq(f, 1, p - 1)), v |-> Decode(SubSeq(f, p + 1, Len(f)))]
QueryPairs(q) == LET f == SelectSeq(Fields(q, 38), LAMBDA x : x # <<>>) IN [i \in 1..Len(f) |-> PairOf(f[i])]

(***************************** socket addresses *****************************)
Dec(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Digit(s[i])
(* a number up to max (< 10^8), or <<>> *)
UpTo(s, max) == IF ~Dec(s) THEN <<>>
                ELSE LET d == SkipZeros(s) IN
                  IF Len(d) > 8 THEN <<>> ELSE LET n == DigitsToNat(d, 0) IN IF n <= max THEN <<n>> ELSE <<>>
Octet(s) == IF Len(s) > 3 \/ (Len(s) > 1 /\ s[1] = C0) THEN <<>> ELSE UpTo(s, 255)
V4(s) == LET f == Fields(s, 46) IN
  IF Len(f) # 4 THEN <<>>
  ELSE IF \E i \in 1..4 : Octet(f[i]) = <<>> THEN <<>> ELSE <<[i \in 1..4 |-> Octet(f[i])[1]]>>
PortBytes(s) == LET n == UpTo(s, 65535) IN IF n = <<>> THEN <<>> ELSE <<<<n[1] \div 256, n[1] % 256>>>>
RECURSIVE HexNum(_, _)
HexNum(s, a) == IF s = <<>> THEN a ELSE HexNum(Tail(s), 16 * a + HexVal(s[1]))
(* the bytes of colon-separated groups, the last perhaps IPv4 *)
GroupBytes(s, tail) ==
  IF s = <<>> THEN <<<<>>>>
  ELSE LET f == Fields(s, 58)
           n == Len(f)
           last4 == tail /\ V4(f[n]) # <<>>
           hexes == IF last4 THEN n - 1 ELSE n
       IN IF \E i \in 1..hexes : Len(f[i]) \notin 1..4 \/ ~AllHex(f[i]) THEN <<>>
          ELSE <<Cat([i \in 1..hexes |-> LET x == HexNum(f[i], 0) IN <<x \div 256, x % 256>>])
                 \o (IF last4 THEN V4(f[n])[1] ELSE <<>>)>>
RECURSIVE DoubleColon(_, _)
DoubleColon(s, i) == IF i + 1 > Len(s) THEN 0 ELSE IF s[i] = 58 /\ s[i + 1] = 58 THEN i ELSE DoubleColon(s, i + 1)
V6(s) ==
  LET p == DoubleColon(s, 1) IN
  IF p = 0 THEN LET g == GroupBytes(s, TRUE) IN IF g = <<>> THEN <<>> ELSE IF Len(g[1]) = 16 THEN g ELSE <<>>
  ELSE LET h == GroupBytes(SubSeq(s, 1, p - 1), FALSE)
           t == GroupBytes(SubSeq(s, p + 2, Len(s)), TRUE)
       IN IF h = <<>> \/ t = <<>> THEN <<>>
          ELSE LET n == Len(h[1]) + Len(t[1]) IN
            IF n > 14 THEN <<>> ELSE <<h[1] \o [i \in 1..16 - n |-> 0] \o t[1]>>
RECURSIVE LastOf(_, _, _)
LastOf(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE LastOf(s, c, i - 1)
(* u32 scope identifiers: at most 4294967295 *)
ScopeOk(s) == Dec(s) /\ LET d == SkipZeros(s) IN NotAbove(d, <<52,50,57,52,57,54,55,50,57,53>>)
SockAddr(s) ==
  IF s # <<>> /\ s[1] = 91
  THEN LET e == FindByte(s, 93, 1) IN
       IF e = 0 \/ e = Len(s) THEN <<>>
       ELSE IF s[e + 1] # 58 THEN <<>>
       ELSE LET in == SubSeq(s, 2, e - 1)
                z == FindByte(in, 37, 1)
                a == V6(IF z = 0 THEN in ELSE SubSeq(in, 1, z - 1))
                p == PortBytes(SubSeq(s, e + 2, Len(s)))
            IN IF a = <<>> \/ p = <<>> THEN <<>>
               ELSE IF z > 0 /\ ~ScopeOk(SubSeq(in, z + 1, Len(in))) THEN <<>>
               ELSE <<a[1] \o p[1]>>
  ELSE LET q == LastOf(s, 58, Len(s)) IN
       IF q = 0 THEN <<>>
       ELSE LET a == V4(SubSeq(s, 1, q - 1)) p == PortBytes(SubSeq(s, q + 1, Len(s))) IN
            IF a = <<>> \/ p = <<>> THEN <<>> ELSE <<a[1] \o p[1]>>

(****************************** file selection ******************************)
MaxIndex == 10000
SoChar(c) == Digit(c) \/ c = CMINUS \/ c = 44
Index(s) == UpTo(s, MaxIndex)
(* [sel |-> the files, bad |-> its numbers cannot be read: the link may be   *)
(* refused, opt |-> files it may select all the same: 0--0 ends at minus     *)
(* zero].  Other items that are not valid are skipped.                       *)
Unread(t) == LET f == Fields(t, CMINUS) IN Len(f) > 2 \/ \E i \in 1..Len(f) : f[i] # <<>> /\ ParseI64(f[i]) = <<>>
Item(t) ==
  LET Bad1 == [sel |-> {}, bad |-> Unread(t), opt |-> {}] IN
  LET d == FindByte(t, CMINUS, 1) IN
  IF t = <<>> THEN Bad1
  ELSE IF d = 0
  THEN LET n == Index(t) IN IF n = <<>> THEN Bad1 ELSE [sel |-> {n[1]}, bad |-> FALSE, opt |-> {}]
  ELSE LET a == Index(SubSeq(t, 1, d - 1)) b == Index(SubSeq(t, d + 1, Len(t))) IN
       IF a = <<0>> /\ d + 1 < Len(t) /\ t[d + 1] = CMINUS /\ UpTo(SubSeq(t, d + 2, Len(t)), 0) = <<0>>
       THEN [Bad1 EXCEPT !.opt = {0}]
       ELSE IF a = <<>> \/ b = <<>> THEN Bad1
       ELSE IF a[1] > b[1] THEN Bad1 ELSE [sel |-> a[1]..b[1], bad |-> FALSE, opt |-> {}]
Selection(v) ==
  IF \E i \in 1..Len(v) : ~SoChar(v[i]) THEN [sel |-> {}, bad |-> FALSE, opt |-> {}]
  ELSE LET f == Fields(v, 44) IN
    [sel |-> UNION {Item(f[i]).sel : i \in 1..Len(f)}, bad |-> \E i \in 1..Len(f) : Item(f[i]).bad,
     opt |-> UNION {Item(f[i]).opt : i \in 1..Len(f)}]

(******************************* info-hashes ********************************)
UrnBtih == <<117, 114, 110, 58, 98, 116, 105, 104, 58>>
(* "skip", "bad", "ok" with the hash; '1' may be read as 'I' or refused *)
InfoHash(v) ==
  IF Len(v) < 9 \/ SubSeq(v, 1, 9) # UrnBtih THEN [w |-> "skip", ih |-> <<>>, soft |-> FALSE]
  ELSE LET x == SubSeq(v, 10, Len(v)) IN
    IF Len(x) = 40 /\ AllHex(x) THEN [w |-> "ok", ih |-> FromHex(x)[1], soft |-> FALSE]
    ELSE IF Len(x) = 32 /\ \A i \in 1..32 : B32Val(x[i]) >= 0 \/ x[i] = 49
    THEN LET y == [i \in 1..32 |-> IF x[i] = 49 THEN 73 ELSE x[i]]
         IN [w |-> "ok", ih |-> B32Bytes([i \in 1..32 |-> B32Val(y[i])]), soft |-> x # y]
    ELSE [w |-> "bad", ih |-> <<>>, soft |-> FALSE]

(******************************** parameters ********************************)
KDn == <<100, 110>> KTr == <<116, 114>> KWs == <<119, 115>> KXt == <<120, 116>>
KSo == <<115, 111>> KPe == <<120, 46, 112, 101>> KDht == <<100, 104, 116>>
(* must: "ok", "err" or "either" *)
NoParams == [must |-> "ok", ih |-> <<>>, name |-> <<>>, named |-> FALSE, tr |-> <<>>, ws |-> <<>>, pe |-> <<>>, dht |-> <<>>, sel |-> {}, opt |-> {}]
Fail(s) == [s EXCEPT !.must = "err"]
Soft(s) == IF s.must = "ok" THEN [s EXCEPT !.must = "either"] ELSE s
Take(s, p) ==
  CASE p.k = KDn -> [s EXCEPT !.name = p.v, !.named = TRUE]
    [] p.k = KTr -> [s EXCEPT !.tr = Append(@, p.v)]
    [] p.k = KWs -> [s EXCEPT !.ws = Append(@, p.v)]
    [] p.k = KXt -> LET h == InfoHash(p.v) IN
         CASE h.w = "skip" -> s
           [] h.w = "bad" -> Fail(s)
           [] OTHER -> LET n == [s EXCEPT !.ih = h.ih] IN IF h.soft THEN Soft(n) ELSE n
    [] p.k = KSo -> LET x == Selection(p.v) n == [s EXCEPT !.sel = @ \cup x.sel, !.opt = @ \cup x.opt] IN IF x.bad THEN Soft(n) ELSE n
    [] p.k = KPe -> LET a == SockAddr(p.v) IN IF a = <<>> THEN Fail(s) ELSE [s EXCEPT !.pe = Append(@, a[1])]
    [] p.k = KDht ->
         LET q == LastOf(p.v, 58, Len(p.v)) IN
         IF q = 0 THEN Soft(s)
         ELSE LET t == SubSeq(p.v, q + 1, Len(p.v))
                  plus == t # <<>> /\ t[1] = CPLUS
                  n == UpTo(IF plus THEN Tail(t) ELSE t, 65535)
                  m == [s EXCEPT !.dht = Append(@, [h |-> SubSeq(p.v, 1, q - 1), p |-> n[1]])]
              IN IF n = <<>> THEN Fail(s) ELSE IF plus THEN Soft(m) ELSE m
    [] OTHER -> s
RECURSIVE TakeAll(_, _, _)
TakeAll(s, q, i) == IF i > Len(q) \/ s.must = "err" THEN s ELSE TakeAll(Take(s, q[i]), q, i + 1)
Params(pairs) == LET s == TakeAll(NoParams, pairs, 1) IN IF s.ih = <<>> THEN Fail(s) ELSE s
Link(b) ==
  LET t == Tidy(b) IN
  IF ~IsMagnet(t) THEN Fail(NoParams)
  ELSE LET r == SubSeq(t, 8, Len(t))
           s == Params(QueryPairs(QueryOf(r)))
       (* "magnet://..." has a host, which may be malformed *)
       IN IF Len(r) >= 2 /\ SubSeq(r, 1, 2) = <<47, 47>> THEN Soft(s) ELSE s

(************************* why a link is refused ****************************)
(* [hard |-> the error a parameter is refused with, soft |-> errors it may   *)
(* but need not be refused with]                                             *)
Fault(p) ==
  LET t == Take(NoParams, p) IN
  IF t.must = "ok" THEN [hard |-> {}, soft |-> {}]
  ELSE LET e == CASE p.k = KXt -> {"InvalidInfoHash"}
                  [] p.k = KSo -> {"ParseInt"}
                  [] p.k = KPe -> {"ParseEndpoint"}
                  [] p.k = KDht -> {"ParseInt", "InvalidPort"}
       IN IF t.must = "err" THEN [hard |-> e, soft |-> {}] ELSE [hard |-> {}, soft |-> e]
RECURSIVE Faults(_, _)
Faults(q, i) ==
  IF i > Len(q)
  THEN IF \E j \in 1..Len(q) : q[j].k = KXt /\ InfoHash(q[j].v).w = "ok" THEN {} ELSE {"MissingInfoHash"}
  ELSE LET f == Fault(q[i]) IN IF f.hard # {} THEN f.hard ELSE f.soft \cup Faults(q, i + 1)
(* where the scheme ends, or 0 *)
Alpha(c) == Lower(c) \in 97..122
SchemeEnd(b) ==
  LET p == FindByte(b, 58, 1) IN
  IF p <= 1 THEN 0
  ELSE IF Alpha(b[1]) /\ \A i \in 2..p - 1 : Alpha(b[i]) \/ Digit(b[i]) \/ b[i] \in {43, 45, 46} THEN p ELSE 0
(* http, https, ws, wss, ftp, file *)
Special == {<<104, 116, 116, 112>>, <<104, 116, 116, 112, 115>>, <<119, 115>>, <<119, 115, 115>>, <<102, 116, 112>>,
            <<102, 105, 108, 101>>}
LinkFaults(b) ==
  LET t == Tidy(b)
      p == SchemeEnd(t)
      sch == [i \in 1..p - 1 |-> Lower(t[i])]
      r == SubSeq(t, p + 1, Len(t))
      host == IF Len(r) >= 2 THEN SubSeq(r, 1, 2) = <<47, 47>> ELSE FALSE
      bad == IF host \/ sch \in Special THEN {"InvalidUrl"} ELSE {}
  IN IF p = 0 THEN {"InvalidUrl"}
     ELSE IF ~IsMagnet(t) THEN bad \cup {"UnsupportedUrlProtocol"}
     ELSE bad \cup Faults(QueryPairs(QueryOf(r)), 1)

(********************* links parsed into given parameters *******************)
(* q: [ih, name, tr, tiers, ws, pe, dht, prio], prio a sequence of 0         *)
(* (do not download) .. 3 (top)                                              *)
Cut(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
Select(q, sel) ==
  LET top == IF sel = {} THEN 0 ELSE 1 + CHOOSE y \in sel : \A z \in sel : z <= y
  IN [i \in 1..Max2(Len(q), top) |-> IF i - 1 \in sel THEN 2 ELSE IF i <= Len(q) THEN q[i] ELSE 0]
(* w: what the link stands for (Link) *)
Merge(q, w) ==
  [ih |-> w.ih, name |-> IF w.named THEN w.name ELSE q.name, tr |-> q.tr \o w.tr,
   tiers |-> IF w.tr = <<>> THEN q.tiers ELSE Cut(q.tiers, Len(q.tr)) \o [i \in 1..Len(w.tr) |-> i - 1],
   ws |-> q.ws \o w.ws, pe |-> q.pe \o w.pe, dht |-> q.dht \o w.dht, prio |-> Select(q.prio, w.sel)]
MergeOpt(q, w) == {Merge(q, w), Merge(q, [w EXCEPT !.sel = @ \cup w.opt])}
(* A refused link may leave some of its parameters behind, but takes nothing *)
(* away.                                                                     *)
StartsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
Kept(q, n) ==
  /\ StartsWith(n.tr, q.tr) /\ StartsWith(n.ws, q.ws) /\ StartsWith(n.pe, q.pe) /\ StartsWith(n.dht, q.dht)
  /\ StartsWith(n.tiers, IF n.tr = q.tr THEN q.tiers ELSE Cut(q.tiers, Len(q.tr)))
  /\ Len(n.tr) > Len(q.tr) => Len(n.tiers) = Len(n.tr)
  /\ Len(n.prio) >= Len(q.prio) /\ \A i \in 1..Len(q.prio) : n.prio[i] \in {q.prio[i], 2}

(* The link a set of parameters is printed as. *)
LinkOf(ih) == <<109,97,103,110,101,116,58,63>> \o KXt \o <<61>> \o UrnBtih \o ToHex(ih)
=============================================================================
