------------------------------- MODULE Order -------------------------------
(* How values compare (Value and ValueRef): integers by size, byte strings   *)
(* bytewise, lists element by element and dictionaries entry by entry (key   *)
(* first), a prefix coming before what it is a prefix of; values of          *)
(* different kinds in the order integer, string, list, dictionary.           *)
EXTENDS Bencode, FiniteSets
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpBytes(a, b) == IF a = b THEN 0 ELSE IF LexLess(a, b) THEN -1 ELSE 1
CmpNat(a, b) == IF Len(a) # Len(b) THEN Sgn(Len(a), Len(b)) ELSE CmpBytes(a, b)
CmpInt(a, b) ==
  LET na == a[1] = CMINUS  nb == b[1] = CMINUS IN
  IF na /\ nb THEN CmpNat(Tail(b), Tail(a))
  ELSE IF na THEN -1 ELSE IF nb THEN 1 ELSE CmpNat(a, b)
Rank(v) == CASE v.t = "i" -> 0 [] v.t = "s" -> 1 [] v.t = "l" -> 2 [] v.t = "d" -> 3
RECURSIVE CmpVal(_, _), CmpList(_, _, _), CmpDict(_, _, _)
CmpVal(a, b) ==
  IF a.t # b.t THEN Sgn(Rank(a), Rank(b))
  ELSE CASE a.t = "i" -> CmpInt(a.n, b.n)
         [] a.t = "s" -> CmpBytes(a.b, b.b)
         [] a.t = "l" -> CmpList(a.l, b.l, 1)
         [] a.t = "d" -> CmpDict(a.d, b.d, 1)
CmpList(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN Sgn(Len(a), Len(b))
  ELSE LET r == CmpVal(a[i], b[i]) IN IF r # 0 THEN r ELSE CmpList(a, b, i + 1)
CmpDict(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN Sgn(Len(a), Len(b))
  ELSE LET r == CmpBytes(a[i].k, b[i].k) IN
    IF r # 0 THEN r
    ELSE LET q == CmpVal(a[i].v, b[i].v) IN IF q # 0 THEN q ELSE CmpDict(a, b, i + 1)
(* p lists the positions of vs in ascending order, equals as they came *)
Sorts(p, vs) ==
  /\ Len(p) = Len(vs) /\ {p[i] : i \in 1..Len(p)} = 1..Len(vs)
  /\ \A i \in 1..Len(p) - 1 :
       LET r == CmpVal(vs[p[i]], vs[p[i + 1]]) IN r = -1 \/ (r = 0 /\ p[i] < p[i + 1])
=============================================================================
