-------------------------------- MODULE Big --------------------------------
(* Values too big to be written down in a trace, described by a shape and a  *)
(* size n, with what must be known of them in closed form.                   *)
(*   ints    list of the numbers 0..n-1                                      *)
(*   empties list of n empty lists                                           *)
(*   text    string of n bytes                                               *)
(*   keys    dictionary of n keys of seven digits, the number each spells    *)
(*   keylen  dictionary of one key of n bytes                                *)
(*   nest    n lists, each in the one before it                              *)
(*   dnest   the same of dictionaries with an empty key                      *)
EXTENDS Bencode

Shapes == {"ints", "empties", "text", "keys", "keylen", "nest", "dnest"}
Fits(sh, n) == n >= 0 /\ (sh \in {"nest", "dnest"} => n >= 1) /\ (sh = "keys" => n <= 10000000)

(* digits of 0, 1, .., n-1 together *)
Beyond(n, x) == IF n > x THEN n - x ELSE 0
DigitSum(n) == n + Beyond(n, 10) + Beyond(n, 100) + Beyond(n, 1000) + Beyond(n, 10000)
                 + Beyond(n, 100000) + Beyond(n, 1000000) + Beyond(n, 10000000)
Digits(n) == DigitSum(n + 1) - DigitSum(n)

(* len: of the encoding; m: nesting; n: elements in the outermost; count     *)
Measure(sh, n) ==
  LET some == IF n > 0 THEN 1 ELSE 0 IN
  CASE sh = "ints"    -> [len |-> 2 + 2 * n + DigitSum(n), m |-> some, n |-> n, count |-> n]
    [] sh = "empties" -> [len |-> 2 + 2 * n, m |-> some, n |-> n, count |-> n]
    [] sh = "text"    -> [len |-> Digits(n) + 1 + n, m |-> 0, n |-> 0, count |-> n]
    [] sh = "keys"    -> [len |-> 2 + 11 * n + DigitSum(n), m |-> some, n |-> 2 * n, count |-> n]
    [] sh = "keylen"  -> [len |-> 2 + Digits(n) + 1 + n + 3, m |-> 1, n |-> 2, count |-> 1]
    [] sh = "nest"    -> [len |-> 2 * n, m |-> n - 1, n |-> n - 1, count |-> IF n > 1 THEN 1 ELSE 0]
    [] sh = "dnest"   -> [len |-> 4 * n - 2, m |-> n - 1, n |-> 2 * (n - 1), count |-> IF n > 1 THEN 1 ELSE 0]

(* What may be wrong with it (at: with which pair of a dictionary)           *)
(*   cut     its last byte is missing                                        *)
(*   extra   a digit follows            end     an end follows               *)
(*   odd     the value of a pair is missing                                  *)
(*   nokey   the key of a pair is missing                                    *)
(*   intkey  the key of a pair is a number                                   *)
(*   badkey  the key of a pair is not text                                   *)
Faults == {"", "cut", "extra", "end"}
PairFaults == {"odd", "nokey", "intkey", "badkey"}
Longer(fault, at) ==
  CASE fault = "" -> 0 [] fault = "cut" -> -1 [] fault \in {"extra", "end"} -> 1
    [] fault = "odd" -> -(Digits(at) + 2) [] fault = "nokey" -> -9
    [] fault = "intkey" -> Digits(at) + 2 - 9 [] fault = "badkey" -> 0

(* What decoding it does. *)
Outcome(sh, n, dl, il, fault) ==
  LET w == Measure(sh, n) IN
  IF dl >= 0 /\ w.m > dl THEN "DepthLimit"
  ELSE IF il >= 0 /\ w.n > il THEN "ItemLimit"
  ELSE CASE fault \in {"cut", "extra"} -> "EOF"
         [] fault = "end" -> "InvalidChar"
         [] fault \in PairFaults -> "ParseDict"
         [] OTHER -> "ok"

(* The value itself, where that is small *)
Padded(i) == LET d == NatDigits(i) IN [j \in 1..(7 - Len(d)) |-> C0] \o d
Chars(n) == [j \in 1..n |-> 97 + ((j - 1) % 26)]
Nat2Int(i) == [t |-> "i", n |-> NatDigits(i)]
RECURSIVE Whole(_, _)
Whole(sh, n) ==
  CASE sh = "ints"    -> [t |-> "l", l |-> [j \in 1..n |-> Nat2Int(j - 1)]]
    [] sh = "empties" -> [t |-> "l", l |-> [j \in 1..n |-> [t |-> "l", l |-> <<>>]]]
    [] sh = "text"    -> [t |-> "s", b |-> Chars(n)]
    [] sh = "keys"    -> [t |-> "d", d |-> [j \in 1..n |-> [k |-> Padded(j - 1), v |-> Nat2Int(j - 1)]]]
    [] sh = "keylen"  -> [t |-> "d", d |-> <<[k |-> Chars(n), v |-> Nat2Int(7)]>>]
    [] sh = "nest"    -> [t |-> "l", l |-> IF n = 1 THEN <<>> ELSE <<Whole(sh, n - 1)>>]
    [] sh = "dnest"   -> [t |-> "d", d |-> IF n = 1 THEN <<>> ELSE <<[k |-> <<>>, v |-> Whole(sh, n - 1)]>>]

(* Its bytes, where they are few *)
RECURSIVE Pairs(_, _, _, _)
Pairs(i, n, fault, at) ==
  IF i = n THEN <<>>
  ELSE LET k == Enc([t |-> "s", b |-> Padded(i)])
           v == Enc(Nat2Int(i))
       IN (IF i # at THEN k \o v
           ELSE CASE fault = "odd" -> k [] fault = "nokey" -> v [] fault = "intkey" -> v \o v
                  [] fault = "badkey" -> [k EXCEPT ![Len(k)] = 255] \o v)
          \o Pairs(i + 1, n, fault, at)
Input(sh, n, fault, at) ==
  LET b == Enc(Whole(sh, n)) IN
  CASE fault = "" -> b
    [] fault = "cut" -> SubSeq(b, 1, Len(b) - 1)
    [] fault = "extra" -> Append(b, 48)
    [] fault = "end" -> Append(b, 101)
    [] fault \in PairFaults -> <<100>> \o Pairs(0, n, fault, at) \o <<101>>
=============================================================================
