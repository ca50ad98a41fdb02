------------------------------- MODULE Bloom -------------------------------
(* Bloom filters (common/src/bloom_filter.rs) of `m` bits: a filter is the   *)
(* set of its set bits; a key has two.                                       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
KeyBits(key, m) == {(key[1] + 256 * key[2]) % m, (key[3] + 256 * key[4]) % m}
Empty == {}
Add(f, key, m) == f \cup KeyBits(key, m)
Find(f, key, m) == KeyBits(key, m) \subseteq f
(* the two forms of a filter's bytes *)
Bytes(f, m) == [j \in 1..m \div 8 |->
   LET p == 8 * (j - 1)
       b(i) == IF p + i \in f THEN 1 ELSE 0
   IN b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7)]
Unbytes(b) == UNION {{8 * (j - 1) + i : i \in {n \in 0..7 : (b[j] \div <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]) % 2 = 1}}
                      : j \in {n \in 1..Len(b) : b[n] # 0}}
(* The estimated number of keys (BEP 33), ln(1 - n/m) / (2 ln(1 - 1/m)) for n *)
(* set bits, in thousandths; -1 stands for infinity.  The bounds on twice the *)
(* estimate come from 1/m <= -ln(1 - 1/m) <= 1/(m-1) and from the logarithm   *)
(* lying between the sums of 1/i over m-n+1..m and over m-n..m-1.             *)
RECURSIVE Sums(_, _, _, _)
Sums(s, k, from, up) ==     (* s[n + 1]: the sum over the n terms from `from` down *)
  LET n == Len(s) - 1 IN
  IF from - n < 1 THEN s ELSE Sums(Append(s, s[n + 1] + k \div (from - n) + up), k, from, up)
(* kept in TLC's registers, so that they are computed once *)
ASSUME /\ TLCSet(11, Sums(<<0>>, 1000 * 1023, 1024, 0)) /\ TLCSet(12, Sums(<<0>>, 1000 * 1024, 1023, 1))
       /\ TLCSet(13, Sums(<<0>>, 1000 * 2047, 2048, 0)) /\ TLCSet(14, Sums(<<0>>, 1000 * 2048, 2047, 1))
Estimate(n, m, x) ==
  IF n = m THEN x = -1
  ELSE IF n = 0 THEN x \in 0..500
  ELSE LET r == IF m = 1024 THEN 11 ELSE 13
       IN 2 * x + 2 >= TLCGet(r)[n + 1] /\ 2 * x <= TLCGet(r + 1)[n + 1]
=============================================================================
