------------------------------ MODULE Bencode ------------------------------
(* Bencode values, their canonical encoding, the decoder of                  *)
(* bencode/src/value{,_ref}.rs as a token stack machine, and a second,       *)
(* declarative definition of the value an input denotes.                     *)
(*                                                                           *)
(* Values:  [t |-> "i", n |-> canonical decimal, as bytes]                   *)
(*          [t |-> "s", b |-> bytes]                                         *)
(*          [t |-> "l", l |-> sequence of values]                            *)
(*          [t |-> "d", d |-> sequence of [k, v], keys strictly ascending]   *)
(* Integers are kept as decimal digits: TLC's are 32-bit, the library's 64.  *)
EXTENDS Naturals, Integers, Sequences

C0 == 48  C9 == 57  CMINUS == 45  CPLUS == 43  CCOLON == 58
CI == 105  CL == 108  CD == 100  CE == 101

Digit(c) == c >= C0 /\ c <= C9

(***************************** byte strings *********************************)
RECURSIVE LexLessAt(_, _, _)
LexLessAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LexLessAt(a, b, i + 1)
LexLess(a, b) == LexLessAt(a, b, 1)

Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] <= 191
RECURSIVE Utf8At(_, _)
Utf8At(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE LET c == b[i] IN
    CASE c < 128 -> Utf8At(b, i + 1)
      [] c >= 194 /\ c <= 223 -> Cont(b, i + 1) /\ Utf8At(b, i + 2)
      [] c >= 224 /\ c <= 239 ->
            /\ Cont(b, i + 1) /\ Cont(b, i + 2)
            /\ (c = 224 => b[i + 1] >= 160)
            /\ (c = 237 => b[i + 1] <= 159)
            /\ Utf8At(b, i + 3)
      [] c >= 240 /\ c <= 244 ->
            /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
            /\ (c = 240 => b[i + 1] >= 144)
            /\ (c = 244 => b[i + 1] <= 143)
            /\ Utf8At(b, i + 4)
      [] OTHER -> FALSE
(* Is this text?  (A byte string without high bytes is, at a glance.) *)
Utf8(b) == IF \A i \in DOMAIN b : b[i] < 128 THEN TRUE ELSE Utf8At(b, 1)

(******************************* numbers ************************************)
RECURSIVE SkipZeros(_)
SkipZeros(s) == IF Len(s) > 1 /\ s[1] = C0 THEN SkipZeros(Tail(s)) ELSE s

IMax == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
IMin == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
NotAbove(d, max) == Len(d) < Len(max) \/ (Len(d) = Len(max) /\ ~LexLess(max, d))

(* The signed 64-bit number a text spells: <<>> if none, else <<canonical>>. *)
ParseI64(s) ==
  LET neg == Len(s) > 0 /\ s[1] = CMINUS
      sgn == Len(s) > 0 /\ (s[1] = CMINUS \/ s[1] = CPLUS)
      dig == IF sgn THEN Tail(s) ELSE s
  IN IF dig = <<>> \/ \E i \in DOMAIN dig : ~Digit(dig[i]) THEN <<>>
     ELSE LET d == SkipZeros(dig)
          IN IF d = <<C0>> THEN <<d>>
             ELSE IF neg THEN (IF NotAbove(d, IMin) THEN << <<CMINUS>> \o d >> ELSE <<>>)
             ELSE (IF NotAbove(d, IMax) THEN <<d>> ELSE <<>>)

RECURSIVE DigitsToNat(_, _)
DigitsToNat(d, acc) == IF d = <<>> THEN acc ELSE DigitsToNat(Tail(d), acc * 10 + (Head(d) - C0))
(* Small enough to be a length of something held in memory here. *)
Small(d) == Len(d) <= 8

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<C0 + n>> ELSE NatDigits(n \div 10) \o <<C0 + (n % 10)>>

(******************************* encoding ***********************************)
EncStr(b) == NatDigits(Len(b)) \o <<CCOLON>> \o b
RECURSIVE Enc(_), EncList(_, _), EncDict(_, _)
Enc(v) ==
  CASE v.t = "i" -> <<CI>> \o v.n \o <<CE>>
    [] v.t = "s" -> EncStr(v.b)
    [] v.t = "l" -> <<CL>> \o EncList(v.l, 1) \o <<CE>>
    [] v.t = "d" -> <<CD>> \o EncDict(v.d, 1) \o <<CE>>
(* halving keeps the recursion and the concatenations shallow *)
EncList(l, i) ==
  IF l = <<>> THEN <<>>
  ELSE IF Len(l) = 1 THEN Enc(l[1])
  ELSE LET m == Len(l) \div 2 IN EncList(SubSeq(l, 1, m), 1) \o EncList(SubSeq(l, m + 1, Len(l)), 1)
EncDict(d, i) ==
  IF d = <<>> THEN <<>>
  ELSE IF Len(d) = 1 THEN EncStr(d[1].k) \o Enc(d[1].v)
  ELSE LET m == Len(d) \div 2 IN EncDict(SubSeq(d, 1, m), 1) \o EncDict(SubSeq(d, m + 1, Len(d)), 1)

RECURSIVE IsValue(_)
IsValue(v) ==
  CASE v.t = "i" -> ParseI64(v.n) = <<v.n>>
    [] v.t = "s" -> \A i \in DOMAIN v.b : v.b[i] \in 0..255
    [] v.t = "l" -> \A i \in DOMAIN v.l : IsValue(v.l[i])
    [] v.t = "d" -> /\ \A i \in DOMAIN v.d : Utf8(v.d[i].k) /\ IsValue(v.d[i].v)
                    /\ \A i \in DOMAIN v.d : i > 1 => LexLess(v.d[i - 1].k, v.d[i].k)

(********************** dictionaries from key/value pairs *******************)
(* d is sorted; the pair goes in unless its key is there (the first counts). *)
RECURSIVE PutAt(_, _, _, _)
PutAt(d, k, v, i) ==
  IF i > Len(d) THEN Append(d, [k |-> k, v |-> v])
  ELSE IF d[i].k = k THEN d
  ELSE IF LexLess(k, d[i].k) THEN SubSeq(d, 1, i - 1) \o <<[k |-> k, v |-> v]>> \o SubSeq(d, i, Len(d))
  ELSE PutAt(d, k, v, i + 1)
Put(d, k, v) ==
  IF d = <<>> \/ LexLess(d[Len(d)].k, k) THEN Append(d, [k |-> k, v |-> v]) ELSE PutAt(d, k, v, 1)

(***************************************************************************)
(* Meaning of an input: recursive descent.  A result is                     *)
(*   [ok |-> TRUE,  v, p (next position), n (elements), m (max. nesting)]   *)
(*   [ok |-> FALSE]                                                          *)
(***************************************************************************)
Bad == [ok |-> FALSE]
RECURSIVE FindByte(_, _, _)
FindByte(b, c, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = c THEN p ELSE FindByte(b, c, p + 1)
(* the end of a number can only follow digits and signs: stop early *)
RECURSIVE NumEnd(_, _, _)
NumEnd(b, c, p) ==
  IF p > Len(b) THEN 0
  ELSE IF b[p] = c THEN p
  ELSE IF Digit(b[p]) \/ b[p] = CMINUS \/ b[p] = CPLUS THEN NumEnd(b, c, p + 1)
  ELSE 0

StrAt(b, p) ==
  LET q == NumEnd(b, CCOLON, p) IN
  IF q = 0 THEN Bad
  ELSE LET n == ParseI64(SubSeq(b, p, q - 1)) IN
    IF n = <<>> THEN Bad
    ELSE IF n[1][1] = CMINUS \/ ~Small(n[1]) THEN Bad
    ELSE LET len == DigitsToNat(n[1], 0) IN
      IF q + len > Len(b) THEN Bad
      ELSE [ok |-> TRUE, v |-> [t |-> "s", b |-> SubSeq(b, q + 1, q + len)], p |-> q + len + 1, n |-> 1]

Max2(a, b) == IF a > b THEN a ELSE b

(* Operator arguments are lazy in TLC: what is accumulated over a loop is    *)
(* kept in one record, whose construction evaluates it.                      *)
RECURSIVE ValAt(_, _, _), ItemsAt(_, _, _), PairsAt(_, _, _)
(* the value starting at p, lying inside `in` containers *)
ValAt(b, p, in) ==
  IF p > Len(b) THEN Bad
  ELSE CASE Digit(b[p]) -> LET s == StrAt(b, p) IN
              IF s.ok THEN [ok |-> TRUE, v |-> s.v, p |-> s.p, n |-> 1, m |-> in] ELSE Bad
         [] b[p] = CI -> LET q == NumEnd(b, CE, p + 1) IN
              IF q = 0 THEN Bad
              ELSE LET n == ParseI64(SubSeq(b, p + 1, q - 1)) IN
                IF n = <<>> THEN Bad
                ELSE [ok |-> TRUE, v |-> [t |-> "i", n |-> n[1]], p |-> q + 1, n |-> 1, m |-> in]
         [] b[p] = CL -> LET r == ItemsAt(b, in + 1, [v |-> <<>>, p |-> p + 1, n |-> 1, m |-> in]) IN
              IF r.ok THEN [ok |-> TRUE, v |-> [t |-> "l", l |-> r.v], p |-> r.p, n |-> r.n, m |-> r.m] ELSE Bad
         [] b[p] = CD -> LET r == PairsAt(b, in + 1, [v |-> <<>>, p |-> p + 1, n |-> 1, m |-> in]) IN
              IF r.ok THEN [ok |-> TRUE, v |-> [t |-> "d", d |-> r.v], p |-> r.p, n |-> r.n, m |-> r.m] ELSE Bad
         [] OTHER -> Bad
Closed(s) == [ok |-> TRUE, v |-> s.v, p |-> s.p + 1, n |-> s.n, m |-> s.m]
ItemsAt(b, in, s) ==
  IF s.p > Len(b) THEN Bad
  ELSE IF b[s.p] = CE THEN Closed(s)
  ELSE LET r == ValAt(b, s.p, in) IN
    IF r.ok THEN ItemsAt(b, in, [v |-> Append(s.v, r.v), p |-> r.p, n |-> s.n + r.n, m |-> Max2(s.m, r.m)]) ELSE Bad
PairsAt(b, in, s) ==
  IF s.p > Len(b) THEN Bad
  ELSE IF b[s.p] = CE THEN Closed(s)
  ELSE IF ~Digit(b[s.p]) THEN Bad
  ELSE LET k == StrAt(b, s.p) IN
    IF ~k.ok THEN Bad
    ELSE IF ~Utf8(k.v.b) THEN Bad
    ELSE LET r == ValAt(b, k.p, in) IN
      IF r.ok THEN PairsAt(b, in, [v |-> Put(s.v, k.v.b, r.v), p |-> r.p, n |-> s.n + 1 + r.n, m |-> Max2(s.m, r.m)]) ELSE Bad

Denote(b) ==
  LET r == ValAt(b, 1, 0) IN
  IF ~r.ok THEN Bad ELSE IF r.p # Len(b) + 1 THEN Bad ELSE r

(* Which limits (-1: none) does a well-formed input exceed? *)
OverDepth(r, dl) == dl >= 0 /\ r.m > dl
OverItems(r, il) == il >= 0 /\ r.n - 1 > il

(***************************************************************************)
(* The decoder as the code has it: one Step per element or closing 'e'.     *)
(*   s = [st, p, c, v, n]   c: stack of [k, len]   v: stack of values       *)
(*   st: "run", "ok", or why it stopped                                     *)
(***************************************************************************)
Start == [st |-> "run", p |-> 1, c |-> <<>>, v |-> <<>>, n |-> 0]
Stop(s, why) == [s EXCEPT !.st = why]

RECURSIVE FoldPairs(_, _, _)
(* pairs are popped from the top, a later insert replaces an earlier one *)
FoldPairs(vs, i, d) ==
  IF i < 2 THEN [ok |-> TRUE, d |-> d]
  ELSE IF vs[i - 1].t # "s" THEN [ok |-> FALSE, d |-> d]
  ELSE IF ~Utf8(vs[i - 1].b) THEN [ok |-> FALSE, d |-> d]
  ELSE LET k == vs[i - 1].b
           same == {j \in DOMAIN d : d[j].k = k}
       IN FoldPairs(vs, i - 2,
            IF same = {} THEN Put(d, k, vs[i])
            ELSE [d EXCEPT ![CHOOSE j \in same : TRUE] = [k |-> k, v |-> vs[i]]])

CloseStep(s) ==
  IF s.c = <<>> THEN Stop(s, "InvalidChar")
  ELSE LET top == s.c[Len(s.c)]
           inner == SubSeq(s.v, top.len + 1, Len(s.v))
           rest == SubSeq(s.v, 1, top.len)
           cs == SubSeq(s.c, 1, Len(s.c) - 1)
       IN IF top.k = "l"
          THEN [s EXCEPT !.p = @ + 1, !.c = cs, !.v = Append(rest, [t |-> "l", l |-> inner])]
          ELSE IF Len(inner) % 2 # 0 THEN Stop(s, "ParseDict")
          ELSE LET f == FoldPairs(inner, Len(inner), <<>>) IN
            IF ~f.ok THEN Stop(s, "ParseDict")
            ELSE [s EXCEPT !.p = @ + 1, !.c = cs, !.v = Append(rest, [t |-> "d", d |-> f.d])]

IntStep(b, s) ==
  LET q == FindByte(b, CE, s.p + 1) IN
  IF s.p + 1 > Len(b) THEN Stop(s, "EOF")
  ELSE IF q = 0 THEN Stop(s, "ExpectedChar")
  ELSE LET n == ParseI64(SubSeq(b, s.p + 1, q - 1)) IN
    IF n = <<>> THEN Stop(s, "ParseInt")
    ELSE [s EXCEPT !.p = q + 1, !.v = Append(@, [t |-> "i", n |-> n[1]])]
StrStep(b, s) ==
  LET q == FindByte(b, CCOLON, s.p) IN
  IF q = 0 THEN Stop(s, "ExpectedChar")
  ELSE LET n == ParseI64(SubSeq(b, s.p, q - 1)) IN
    IF n = <<>> THEN Stop(s, "ParseInt")
    ELSE IF ~Small(n[1]) THEN Stop(s, "EOF")
    ELSE LET len == DigitsToNat(n[1], 0) IN
      IF q + len > Len(b) THEN Stop(s, "EOF")
      ELSE [s EXCEPT !.p = q + len + 1, !.v = Append(@, [t |-> "s", b |-> SubSeq(b, q + 1, q + len)])]

Step(b, s, dl, il) ==
  IF s.p > Len(b)
  THEN IF s.c = <<>> /\ Len(s.v) = 1 THEN Stop(s, "ok") ELSE Stop(s, "EOF")
  ELSE IF b[s.p] = CE THEN CloseStep(s)
  ELSE IF s.c = <<>> /\ s.v # <<>> THEN Stop(s, "EOF")
  ELSE IF dl >= 0 /\ Len(s.c) > dl THEN Stop(s, "DepthLimit")
  ELSE IF il >= 0 /\ s.n > il THEN Stop(s, "ItemLimit")
  ELSE LET t == [s EXCEPT !.n = @ + 1] IN
    CASE Digit(b[s.p]) -> StrStep(b, t)
      [] b[s.p] = CI -> IntStep(b, t)
      [] b[s.p] = CL -> [t EXCEPT !.p = @ + 1, !.c = Append(@, [k |-> "l", len |-> Len(t.v)])]
      [] b[s.p] = CD -> [t EXCEPT !.p = @ + 1, !.c = Append(@, [k |-> "d", len |-> Len(t.v)])]
      [] OTHER -> Stop(t, "InvalidChar")

RECURSIVE RunFrom(_, _, _, _)
RunFrom(b, s, dl, il) == IF s.st # "run" THEN s ELSE RunFrom(b, Step(b, s, dl, il), dl, il)
Run(b, dl, il) == RunFrom(b, Start, dl, il)

(******************************* accessors **********************************)
None == <<>>
Some(x) == <<x>>
AsInt(v) == IF v.t = "i" THEN Some(v.n) ELSE None
AsStr(v) == IF v.t = "s" THEN (IF Utf8(v.b) THEN Some(v.b) ELSE None) ELSE None
AsBytes(v) == IF v.t = "s" THEN Some(v.b) ELSE None
AsList(v) == IF v.t = "l" THEN Some(v.l) ELSE None
AsDict(v) == IF v.t = "d" THEN Some(v.d) ELSE None
Find(v, k) ==
  IF v.t # "d" THEN None
  ELSE LET at == {i \in DOMAIN v.d : v.d[i].k = k} IN
    IF at = {} THEN None ELSE Some(v.d[CHOOSE i \in at : TRUE].v)
FindT(v, k, t) == LET f == Find(v, k) IN IF f = None THEN None ELSE IF f[1].t = t THEN f ELSE None
At(v, i) == IF v.t # "l" THEN None ELSE IF i + 1 > Len(v.l) THEN None ELSE Some(v.l[i + 1])
Then(o, F(_)) == IF o = None THEN None ELSE F(o[1])

Accessors(v, key, i) == [
  is |-> <<v.t = "s", v.t = "i", v.t = "l", v.t = "d">>,
  as_int |-> AsInt(v), as_str |-> AsStr(v), as_bytes |-> AsBytes(v),
  as_list |-> AsList(v), into_list |-> AsList(v), list_mut |-> AsList(v),
  as_dict |-> AsDict(v), into_dict |-> AsDict(v), dict_mut |-> AsDict(v),
  list_len |-> IF v.t = "l" THEN Some(Len(v.l)) ELSE None,
  dict_len |-> IF v.t = "d" THEN Some(Len(v.d)) ELSE None,
  find |-> Find(v, key),
  find_int |-> FindT(v, key, "i"),
  find_int_value |-> Then(Find(v, key), AsInt),
  find_str |-> FindT(v, key, "s"),
  find_str_value |-> Then(Find(v, key), AsStr),
  find_list |-> FindT(v, key, "l"),
  find_list_value |-> Then(Find(v, key), AsList),
  find_dict |-> FindT(v, key, "d"),
  list_at |-> At(v, i),
  list_string_value_at |-> Then(At(v, i), AsStr),
  list_int_value_at |-> Then(At(v, i), AsInt)]
=============================================================================
