------------------------------- MODULE MCSha1 -------------------------------
(* Sha1 against the published digests, its padding, and the messages around  *)
(* the ends of blocks, printed for the replay in the code.                   *)
EXTENDS Sha1, FiniteSets, Json, TLC
CONSTANTS Max, Emit
VARIABLE m
(* FIPS 180 examples: "abc", "", the 448-bit one, a million "a" is left out *)
Abc == <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
Nil == <<218,57,163,238,94,107,75,13,50,85,191,239,149,96,24,144,175,216,7,9>>
L448 == <<132,152,62,68,28,59,210,110,186,174,74,161,249,81,41,229,229,70,112,241>>
M448 == [i \in 1..56 |-> 97 + (i - 1) \div 4 + ((i - 1) % 4)]
ASSUME Sha1(<<97, 98, 99>>) = Abc
ASSUME Sha1(<<>>) = Nil
ASSUME Sha1(M448) = L448
(* the round functions bit by bit: choose, parity, majority *)
Bit(x, i) == (x \div <<1, 2, 4>>[i]) % 2
ASSUME \A b, c, d \in 0..7 :
  LET w(x) == <<x, x>> IN
  \A i \in 1..3 :
    LET p == Bit(b, i) q == Bit(c, i) r == Bit(d, i) IN
    /\ Bit(F(1, w(b), w(c), w(d))[2], i) = (IF p = 1 THEN q ELSE r)
    /\ Bit(F(21, w(b), w(c), w(d))[2], i) = (p + q + r) % 2
    /\ Bit(F(41, w(b), w(c), w(d))[1], i) = (IF p + q + r >= 2 THEN 1 ELSE 0)
    /\ F(61, w(b), w(c), w(d)) = F(21, w(b), w(c), w(d))
(* rotating a word all the way round gives it back *)
RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN x ELSE Times(Rot1(x), k - 1)
ASSUME \A x \in {<<0, 1>>, <<32768, 0>>, <<4660, 22136>>, <<65535, 65534>>} :
  Times(x, 32) = x /\ Times(x, 5) = Rot5(x) /\ Times(x, 30) = Rot30(x)

Padded(p, n) ==
  /\ Len(p) % 64 = 0 /\ Len(p) - n \in 9..72
  /\ p[n + 1] = 128
  /\ \A i \in n + 2..Len(p) - 8 : p[i] = 0
  /\ p[Len(p)] + 256 * p[Len(p) - 1] + 65536 * p[Len(p) - 2] = 8 * n
Init == m = <<>>
(* short messages over a few bytes; long ones of one byte *)
Next == \/ Len(m) < Max /\ \E b \in {0, 1, 97, 128, 255} : m' = Append(m, b)
        \/ Len(m) >= Max /\ Len(m) < 200 /\ m[1] = 97 /\ (\A i \in 1..Len(m) : m[i] = 97) /\ m' = Append(m, 97)
Spec == Init /\ [][Next]_m
Inv == /\ Padded(Pad(m), Len(m))
       /\ LET d == Sha1(m) IN
            /\ Len(d) = 20 /\ \A i \in 1..20 : d[i] \in 0..255
            /\ Emit => PrintT("@" \o ToJson([b |-> m, d |-> d]))
=============================================================================
