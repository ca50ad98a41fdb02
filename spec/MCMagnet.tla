----------------------------- MODULE MCMagnet -----------------------------
(* Magnet on all short selections, and on all short lists of parameters.     *)
EXTENDS Magnet, Json, TLC
CONSTANTS Part, Max, Emit
VARIABLE x
Out(v) == Emit => PrintT("@" \o ToJson(v))
(* ------------------------------ selections ------------------------------ *)
(* one pass over the characters, as a second definition *)
RECURSIVE Scan(_, _, _)
Scan(v, i, s) ==
  LET flush == IF s.a > MaxIndex \/ s.b > MaxIndex THEN [s EXCEPT !.st = "start", !.a = 0, !.b = 0]
               ELSE IF s.st = "one" THEN [s EXCEPT !.sel = @ \cup {s.a}, !.st = "start"]
               ELSE IF s.st = "two" /\ s.a <= s.b THEN [s EXCEPT !.sel = @ \cup (s.a..s.b), !.st = "start"]
               ELSE [s EXCEPT !.st = "start"]
  IN IF i > Len(v) THEN flush.sel
     ELSE Scan(v, i + 1,
       CASE v[i] = 44 -> flush
         [] v[i] = CMINUS -> [s EXCEPT !.st = CASE s.st = "one" -> "dash" [] OTHER -> "no"]
         [] OTHER -> CASE s.st = "start" -> [s EXCEPT !.st = "one", !.a = v[i] - C0, !.b = 0]
                       [] s.st = "one" -> [s EXCEPT !.a = @ * 10 + v[i] - C0]
                       [] s.st = "dash" -> [s EXCEPT !.st = "two", !.b = v[i] - C0]
                       [] s.st = "two" -> [s EXCEPT !.b = @ * 10 + v[i] - C0]
                       [] OTHER -> s)
SoAlphabet == {48, 49, 51, 45, 44, 120}
SoOk == LET r == Selection(x) IN
  /\ IF 120 \in Range(x) THEN r.sel = {} ELSE r.sel = Scan(x, 1, [st |-> "start", a |-> 0, b |-> 0, sel |-> {}])
  (* only items with two dashes: no number is too large here *)
  /\ r.bad = (120 \notin Range(x) /\ \E i, j \in 1..Len(x) : i < j /\ x[i] = CMINUS /\ x[j] = CMINUS /\ \A k \in i..j : x[k] # 44)
  /\ Out([so |-> x])
(* --------------------------------- links -------------------------------- *)
B(t) == CASE t = "dn1" -> KDn \o <<61, 97>>
          [] t = "dn2" -> KDn \o <<61, 98, 37, 50, 48, 43>>
          [] t = "tr1" -> KTr \o <<61, 117>>
          [] t = "tr2" -> KTr \o <<61, 118, 37, 50, 54, 61>>
          [] t = "ws" -> KWs \o <<61, 115>>
          [] t = "ih1" -> KXt \o <<61>> \o UrnBtih \o [i \in 1..40 |-> IF i % 2 = 0 THEN 65 ELSE 49]
          [] t = "ih2" -> KXt \o <<61>> \o UrnBtih \o [i \in 1..32 |-> IF i % 2 = 0 THEN 50 ELSE 122]
          [] t = "bad1" -> KXt \o <<61>> \o UrnBtih \o [i \in 1..40 |-> IF i = 40 THEN 103 ELSE 49]
          [] t = "bad2" -> KXt \o <<61>> \o UrnBtih \o [i \in 1..39 |-> 49]
          [] t = "urn" -> KXt \o <<61, 117, 114, 110, 58, 120>>
          [] t = "so1" -> KSo \o <<61, 48>>
          [] t = "so2" -> KSo \o <<61, 50, 45, 51>>
          [] t = "so3" -> KSo \o <<61, 50, 45, 49>>
          [] t = "so4" -> KSo \o <<61, 49, 45, 45, 50>>
          [] t = "pe1" -> KPe \o <<61, 49, 46, 50, 46, 51, 46, 52, 58, 56>>
          [] t = "pe2" -> KPe \o <<61, 91, 58, 58, 49, 93, 58, 57>>
          [] t = "pe3" -> KPe \o <<61, 49, 46, 50, 46, 51, 58, 56>>
          [] t = "dht1" -> KDht \o <<61, 104, 58, 49>>
          [] t = "dht2" -> KDht \o <<61, 91, 58, 58, 49, 93, 58, 54, 53, 53, 51, 53>>
          [] t = "dht3" -> KDht \o <<61, 104, 58, 54, 53, 53, 51, 54>>
          [] t = "zz" -> <<122, 122, 61, 49>>
          [] t = "nov" -> KTr
          [] t = "none" -> <<>>
Kinds == {"dn1", "dn2", "tr1", "tr2", "ws", "ih1", "ih2", "bad1", "bad2", "urn", "so1", "so2", "so3", "so4", "pe1", "pe2",
          "pe3", "dht1", "dht2", "dht3", "zz", "nov", "none"}
RECURSIVE Amp(_)
Amp(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN B(q[1]) ELSE B(q[1]) \o <<38>> \o Amp(Tail(q))
Text1(q) == <<109,97,103,110,101,116,58,63>> \o Amp(q)
Of(q, S, f(_)) == LET t == SelectSeq(q, LAMBDA k : k \in S) IN [i \in 1..Len(t) |-> f(t[i])]
LinkOk ==
  LET r == Link(Text1(x))
      has(S) == Range(x) \cap S # {}
      ihs == SelectSeq(x, LAMBDA k : k \in {"ih1", "ih2"})
      dns == SelectSeq(x, LAMBDA k : k \in {"dn1", "dn2"})
  IN /\ (r.must = "err") = (ihs = <<>> \/ has({"bad1", "bad2", "pe3", "dht3"}))
     /\ (r.must = "either") = (r.must # "err" /\ has({"so4"}))
     /\ r.must # "err" =>
          /\ r.ih = InfoHash(SubSeq(B(ihs[Len(ihs)]), 4, Len(B(ihs[Len(ihs)])))).ih /\ Len(r.ih) = 20
          /\ r.tr = Of(x, {"tr1", "tr2", "nov"}, LAMBDA k : CASE k = "tr1" -> <<117>> [] k = "tr2" -> <<118, 38, 61>> [] OTHER -> <<>>)
          /\ r.ws = Of(x, {"ws"}, LAMBDA k : <<115>>)
          /\ r.pe = Of(x, {"pe1", "pe2"}, LAMBDA k : IF k = "pe1" THEN <<1, 2, 3, 4, 0, 8>>
                                                    ELSE [i \in 1..18 |-> IF i = 16 THEN 1 ELSE IF i = 18 THEN 9 ELSE 0])
          /\ r.dht = Of(x, {"dht1", "dht2"}, LAMBDA k : IF k = "dht1" THEN [h |-> <<104>>, p |-> 1]
                                                        ELSE [h |-> <<91, 58, 58, 49, 93>>, p |-> 65535])
          /\ r.sel = (IF has({"so1"}) THEN {0} ELSE {}) \cup (IF has({"so2"}) THEN {2, 3} ELSE {})
          /\ r.name = (IF dns = <<>> THEN <<>> ELSE IF dns[Len(dns)] = "dn1" THEN <<97>> ELSE <<98, 32, 32>>)
          (* what is printed names the same *)
          /\ Link(LinkOf(r.ih)).must = "ok" /\ Link(LinkOf(r.ih)).ih = r.ih
     /\ Out([u |-> Text1(x)])
(* ------------------------------- addresses ------------------------------ *)
AdAlphabet == {58, 49, 102, 46}
AdOk == /\ LET a == SockAddr(<<91>> \o x \o <<93, 58, 49>>) IN
             a # <<>> => Len(a[1]) = 18
        /\ Out([pe |-> <<91>> \o x \o <<93, 58, 49>>])
Init == x = <<>>
Next == Len(x) < Max
        /\ \E b \in (CASE Part = "so" -> SoAlphabet [] Part = "link" -> Kinds [] OTHER -> AdAlphabet) : x' = Append(x, b)
Spec == Init /\ [][Next]_x
Inv == CASE Part = "so" -> SoOk [] Part = "link" -> LinkOk [] OTHER -> AdOk
=============================================================================
