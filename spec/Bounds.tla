------------------------------- MODULE Bounds -------------------------------
(* Clamping (common/src/lib.rs), random numbers and bytes (random.rs,        *)
(* ed25519.rs).                                                              *)
EXTENDS Integers, FiniteSets, Sequences
(* the value of lo..hi that is nearest to v *)
Clamp(v, lo, hi) == CHOOSE x \in lo..hi : \A y \in lo..hi : LET d(a) == IF a > v THEN a - v ELSE v - a IN d(x) <= d(y)
(* what many draws below n give *)
Draws(n) == 0..n - 1
=============================================================================
