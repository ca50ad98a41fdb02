-------------------------------- MODULE Sha1 --------------------------------
(* SHA-1 (FIPS 180) as used for identifiers (common/src/sha1.rs).  Words of  *)
(* 32 bits are pairs of 16-bit halves, since the numbers of TLC are signed.  *)
EXTENDS Naturals, Sequences, Bitwise

W(h, l) == <<h, l>>
Carry(h, l) == <<(h + l \div 65536) % 65536, l % 65536>>
Sum(x, y) == Carry(x[1] + y[1], x[2] + y[2])
Sum5(a, b, c, d, e) == Carry(a[1] + b[1] + c[1] + d[1] + e[1], a[2] + b[2] + c[2] + d[2] + e[2])
(* rotations to the left by 1, 5 and 30 *)
Rot(x, m, n) == <<((x[1] * m) % 65536) + x[2] \div n, ((x[2] * m) % 65536) + x[1] \div n>>
Rot1(x) == Rot(x, 2, 32768)
Rot5(x) == Rot(x, 32, 2048)
Rot30(x) == Rot(<<x[2], x[1]>>, 16384, 4)
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
And2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Or2(x, y) == <<x[1] | y[1], x[2] | y[2]>>
Not2(x) == <<65535 - x[1], 65535 - x[2]>>

(* the message, a one bit, zeros, and the length in bits (below 2^31 here) *)
PadLen(n) == IF n % 64 < 56 THEN 64 * (n \div 64 + 1) ELSE 64 * (n \div 64 + 2)
BitLen(n) == LET b == 8 * n IN <<0, 0, 0, 0, b \div 16777216, (b \div 65536) % 256, (b \div 256) % 256, b % 256>>
PadByte(m, i) ==
  LET n == Len(m) p == PadLen(n) IN
  IF i <= n THEN m[i] ELSE IF i = n + 1 THEN 128 ELSE IF i > p - 8 THEN BitLen(n)[i - (p - 8)] ELSE 0
Pad(m) == [i \in 1..PadLen(Len(m)) |-> PadByte(m, i)]
(* the 64 bytes from at *)
Chunk(m, at) == [i \in 1..64 |-> PadByte(m, at + i - 1)]

Word(b, i) == <<256 * b[i] + b[i + 1], 256 * b[i + 2] + b[i + 3]>>
RECURSIVE Schedule(_)
Schedule(w) ==
  LET t == Len(w) + 1 IN
  IF t > 80 THEN w
  ELSE Schedule(Append(w, Rot1(Xor2(Xor2(w[t - 3], w[t - 8]), Xor2(w[t - 14], w[t - 16])))))

F(t, b, c, d) ==
  IF t <= 20 THEN Or2(And2(b, c), And2(Not2(b), d))
  ELSE IF t <= 40 THEN Xor2(b, Xor2(c, d))
  ELSE IF t <= 60 THEN Or2(Or2(And2(b, c), And2(b, d)), And2(c, d))
  ELSE Xor2(b, Xor2(c, d))
K(t) == IF t <= 20 THEN <<23170, 31129>> ELSE IF t <= 40 THEN <<28377, 60321>>
        ELSE IF t <= 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
(* s = [a, b, c, d, e, t] *)
Round(s, w) ==
  [a |-> Sum5(Rot5(s.a), F(s.t, s.b, s.c, s.d), s.e, K(s.t), w[s.t]), b |-> s.a, c |-> Rot30(s.b), d |-> s.c, e |-> s.d, t |-> s.t + 1]
RECURSIVE Rounds(_, _)
Rounds(s, w) == IF s.t > 80 THEN s ELSE Rounds(Round(s, w), w)
Block(h, b) ==
  LET w == Schedule([i \in 1..16 |-> Word(b, 4 * i - 3)])
      s == Rounds([h EXCEPT !.t = 1], w)
  IN [a |-> Sum(h.a, s.a), b |-> Sum(h.b, s.b), c |-> Sum(h.c, s.c), d |-> Sum(h.d, s.d), e |-> Sum(h.e, s.e), t |-> 1]
H0 == [a |-> <<26437, 8961>>, b |-> <<61389, 43913>>, c |-> <<39098, 56574>>, d |-> <<4146, 21622>>, e |-> <<50130, 57840>>, t |-> 1]
Bytes(x) == <<x[1] \div 256, x[1] % 256, x[2] \div 256, x[2] % 256>>
Digest(h) == Bytes(h.a) \o Bytes(h.b) \o Bytes(h.c) \o Bytes(h.d) \o Bytes(h.e)
(* The digest in the making: one Absorb per block. *)
Fresh == [h |-> H0, at |-> 1]
Full(s, m) == s.at > PadLen(Len(m))
Absorb(s, m) == [h |-> Block(s.h, Chunk(m, s.at)), at |-> s.at + 64]
RECURSIVE From(_, _)
From(s, m) == IF Full(s, m) THEN Digest(s.h) ELSE From(Absorb(s, m), m)
Sha1(m) == From(Fresh, m)
=============================================================================
