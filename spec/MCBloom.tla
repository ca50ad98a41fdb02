------------------------------ MODULE MCBloom ------------------------------
(* All short histories over two small filters and four keys.                 *)
EXTENDS Bloom, Json, TLC
CONSTANTS M, Depth, Emit
VARIABLES f, added, hist
vars == <<f, added, hist>>
(* for M = 16: keys sharing bits, a key whose two bits coincide, wrapped *)
Keys == <<<<0, 0, 1, 0>>, <<1, 0, 2, 0>>, <<5, 1, 5, 0>>, <<2, 0, 255, 255>>>>
Ops == [f : {"set"}, i : 1..2, key : 1..4] \cup [f : {"clear"}, i : 1..2] \cup [f : {"copy"}, i : 1..2]
Step(o) ==
  CASE o.f = "set" -> /\ f' = [f EXCEPT ![o.i] = Add(@, Keys[o.key], M)]
                      /\ added' = [added EXCEPT ![o.i] = @ \cup {o.key}]
    [] o.f = "clear" -> f' = [f EXCEPT ![o.i] = {}] /\ added' = [added EXCEPT ![o.i] = {}]
    (* rebuilt from the bytes of the other *)
    [] o.f = "copy" -> /\ f' = [f EXCEPT ![o.i] = Unbytes(Bytes(f[3 - o.i], M))]
                       /\ added' = [added EXCEPT ![o.i] = added[3 - o.i]]
Init == f = <<{}, {}>> /\ added = <<{}, {}>> /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : Step(o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Inv == /\ \A i \in 1..2 : /\ \A k \in added[i] : Find(f[i], Keys[k], M)
                          /\ f[i] = UNION {KeyBits(Keys[k], M) : k \in added[i]}
                          /\ Unbytes(Bytes(f[i], M)) = f[i]
       /\ (Emit /\ Len(hist) = Depth => PrintT("@" \o ToJson([h |-> hist])))
=============================================================================
