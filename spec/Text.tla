-------------------------------- MODULE Text --------------------------------
(* Text helpers: hex (common/src/hex.rs), base32, percent escapes, splitting,*)
(* trimming, numbers (src/str_utl.rs).  Texts are byte strings; a result is  *)
(* <<value>>, or <<>> for refusal.                                           *)
EXTENDS Bencode, FiniteSets

Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
          ELSE LET m == Len(q) \div 2 IN Cat(SubSeq(q, 1, m)) \o Cat(SubSeq(q, m + 1, Len(q)))
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

(********************************** hex *************************************)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF Lower(c) >= 97 /\ Lower(c) <= 102 THEN Lower(c) - 87 ELSE -1
AllHex(s) == \A i \in 1..Len(s) : HexVal(s[i]) >= 0
FromHex(s) == IF Len(s) % 2 = 1 \/ ~AllHex(s) THEN <<>>
              ELSE <<[i \in 1..Len(s) \div 2 |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]>>
ToHex(b) == [i \in 1..2 * Len(b) |->
               LET x == b[(i + 1) \div 2]
                   n == IF i % 2 = 1 THEN x \div 16 ELSE x % 16
               IN IF n < 10 THEN 48 + n ELSE 87 + n]

(********************************* base32 ***********************************)
PAD == 61
B32Val(c) == IF Lower(c) >= 97 /\ Lower(c) <= 122 THEN Lower(c) - 97 ELSE IF c >= 50 /\ c <= 55 THEN c - 24 ELSE -1
B32Chars == {c \in 0..255 : B32Val(c) >= 0}
TwoTo(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
(* the bytes of 5-bit digits, a rest of less than 8 bits dropped *)
B32Bytes(d) ==
  LET bit(i) == (d[(i \div 5) + 1] \div TwoTo(4 - (i % 5))) % 2
  IN [j \in 1..(5 * Len(d)) \div 8 |-> LET p == 8 * (j - 1) IN
        128 * bit(p) + 64 * bit(p + 1) + 32 * bit(p + 2) + 16 * bit(p + 3)
          + 8 * bit(p + 4) + 4 * bit(p + 5) + 2 * bit(p + 6) + bit(p + 7)]
B32Rest(d) == LET r == (5 * Len(d)) % 8 IN IF r = 0 THEN 0 ELSE d[Len(d)] % TwoTo(r)
RECURSIVE Unpad(_)
Unpad(s) == IF s # <<>> /\ s[Len(s)] = PAD THEN Unpad(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* "empty": must give nothing; "exact": must give v; "any": neither a valid  *)
(* encoding nor one with an illegal character (49, '1', is read as 'I')      *)
FromB32(s) ==
  LET body == Unpad(s)
      d == [i \in 1..Len(body) |-> B32Val(body[i])]
      pads == Len(s) - Len(body)
  IN IF \E i \in 1..Len(s) : B32Val(s[i]) < 0 /\ s[i] \notin {PAD, 49} THEN [w |-> "empty", v |-> <<>>]
     ELSE IF \E i \in 1..Len(body) : d[i] < 0 THEN [w |-> "any", v |-> <<>>]
     ELSE IF Len(body) % 8 \in {1, 3, 6} \/ (pads > 0 /\ (Len(body) % 8 = 0 \/ pads # 8 - (Len(body) % 8))) \/ B32Rest(d) # 0
     THEN [w |-> "any", v |-> <<>>]
     ELSE [w |-> "exact", v |-> B32Bytes(d)]
ToB32(b, up, padded) ==
  LET n == (8 * Len(b) + 4) \div 5
      bit(i) == IF i >= 8 * Len(b) THEN 0 ELSE (b[(i \div 8) + 1] \div TwoTo(7 - (i % 8))) % 2
      dig(j) == LET p == 5 * (j - 1) IN 16 * bit(p) + 8 * bit(p + 1) + 4 * bit(p + 2) + 2 * bit(p + 3) + bit(p + 4)
      ch(v) == IF v < 26 THEN (IF up THEN 65 ELSE 97) + v ELSE 24 + v
  IN [j \in 1..n |-> ch(dig(j))] \o (IF padded THEN [j \in 1..(8 - (n % 8)) % 8 |-> PAD] ELSE <<>>)

(***************************** percent escapes ******************************)
RECURSIVE UnescAt(_, _, _)
(* strict: an incomplete escape refuses the text, else it stands for itself *)
UnescAt(s, strict, r) ==
  LET i == r.i IN
  IF i > Len(s) THEN r
  ELSE IF s[i] = 43 THEN UnescAt(s, strict, [r EXCEPT !.i = i + 1, !.v = Append(@, 32)])
  ELSE IF s[i] # 37 THEN UnescAt(s, strict, [r EXCEPT !.i = i + 1, !.v = Append(@, s[i])])
  ELSE IF i + 2 <= Len(s) /\ HexVal(s[i + 1]) >= 0 /\ HexVal(s[i + 2]) >= 0
       THEN UnescAt(s, strict, [r EXCEPT !.i = i + 3, !.v = Append(@, 16 * HexVal(s[i + 1]) + HexVal(s[i + 2]))])
  ELSE IF strict THEN [r EXCEPT !.ok = FALSE]
  ELSE UnescAt(s, strict, [r EXCEPT !.i = i + 1, !.v = Append(@, 37)])
Plain(s) == \A i \in 1..Len(s) : s[i] # 37 /\ s[i] # 43
Unescape(s) == IF Plain(s) THEN <<s>>
               ELSE LET r == UnescAt(s, TRUE, [i |-> 1, v |-> <<>>, ok |-> TRUE]) IN IF r.ok THEN <<r.v>> ELSE <<>>
(* form decoding, as of query strings *)
FormDecode(s) == IF Plain(s) THEN s ELSE UnescAt(s, FALSE, [i |-> 1, v |-> <<>>, ok |-> TRUE]).v
(* every ill-formed part replaced by U+FFFD *)
RECURSIVE LossyAt(_, _)
FFFD == <<239, 191, 189>>
LossyAt(b, r) ==
  LET i == r.i
      bad(n) == LossyAt(b, [i |-> i + n, v |-> r.v \o FFFD])
      good(n) == LossyAt(b, [i |-> i + n, v |-> r.v \o SubSeq(b, i, i + n - 1)])
      second(lo, hi) == i + 1 <= Len(b) /\ b[i + 1] >= lo /\ b[i + 1] <= hi
  IN IF i > Len(b) THEN r.v
     ELSE LET c == b[i] IN
       IF c < 128 THEN good(1)
       ELSE IF c >= 194 /\ c <= 223 THEN (IF Cont(b, i + 1) THEN good(2) ELSE bad(1))
       ELSE IF c >= 224 /\ c <= 239
       THEN IF ~second(IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191) THEN bad(1)
            ELSE IF Cont(b, i + 2) THEN good(3) ELSE bad(2)
       ELSE IF c >= 240 /\ c <= 244
       THEN IF ~second(IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191) THEN bad(1)
            ELSE IF ~Cont(b, i + 2) THEN bad(2)
            ELSE IF Cont(b, i + 3) THEN good(4) ELSE bad(3)
       ELSE bad(1)
Lossy(b) == IF Utf8(b) THEN b ELSE LossyAt(b, [i |-> 1, v |-> <<>>])

(********************************* splitting ********************************)
QUOTE == 34
(* first position >= p with c, 0 for none *)
(* first separator outside a leading quoted section; a section that is never *)
(* closed leaves the place open: `free`                                      *)
SplitPos(s, sep) ==
  IF s # <<>> /\ s[1] = QUOTE /\ sep # QUOTE
  THEN LET q == FindByte(s, QUOTE, 2) IN IF q = 0 THEN [free |-> TRUE, p |-> 0] ELSE [free |-> FALSE, p |-> FindByte(s, sep, q)]
  ELSE [free |-> FALSE, p |-> FindByte(s, sep, 1)]
Parts(s, p) == IF p = 0 THEN [a |-> s, b |-> <<>>] ELSE [a |-> SubSeq(s, 1, p - 1), b |-> SubSeq(s, p + 1, Len(s))]
SplitOk(s, sep, a, b) ==
  LET x == SplitPos(s, sep) IN
  IF x.free THEN \E p \in {0} \cup {i \in 1..Len(s) : s[i] = sep} : Parts(s, p) = [a |-> a, b |-> b]
  ELSE Parts(s, x.p) = [a |-> a, b |-> b]
RECURSIVE SplitAll(_, _)
SplitAll(s, sep) == IF s = <<>> THEN <<>>
                    ELSE LET x == Parts(s, SplitPos(s, sep).p) IN <<x.a>> \o SplitAll(x.b, sep)

(********************************* trimming *********************************)
Blank(c) == c \in {32, 9, 13, 10}
Trim(s) == LET S == {i \in 1..Len(s) : ~Blank(s[i])} IN
           IF S = {} THEN <<>>
           ELSE SubSeq(s, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : i >= j)

(********************************** numbers *********************************)
(* a leading plus may be taken or not *)
IntOk(s, r) == LET n == ParseI64(s) IN
  IF s # <<>> /\ s[1] = CPLUS THEN r = n \/ r = <<>> ELSE r = n
=============================================================================
