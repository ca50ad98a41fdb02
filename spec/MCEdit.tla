------------------------------- MODULE MCEdit -------------------------------
(* Short histories of edits: registers always hold values, an edit changes   *)
(* one register and there only the place it names; printed for the replay.   *)
EXTENDS Edit, Json, TLC
CONSTANTS Depth, Emit
VARIABLES s, hist, last
vars == <<s, hist, last>>
a == <<97>>  b == <<98>>
Ops == {
  [op |-> "int", d |-> 1, n |-> <<45, 49>>],
  [op |-> "str", d |-> 1, b |-> b],
  [op |-> "list", d |-> 1, xs |-> <<1, 2>>],
  [op |-> "list", d |-> 2, xs |-> <<>>],
  [op |-> "dict", d |-> 1, ks |-> <<b, a>>, xs |-> <<1, 2>>],
  [op |-> "dict", d |-> 2, ks |-> <<a, a>>, xs |-> <<1, 2>>],
  [op |-> "copy", d |-> 2, x |-> 1],
  [op |-> "conv", d |-> 1],
  [op |-> "eq", d |-> 1, x |-> 2],
  [op |-> "unlist", d |-> 1], [op |-> "undict", d |-> 1],
  [op |-> "push", d |-> 1, path |-> <<>>, x |-> 2],
  [op |-> "push", d |-> 1, path |-> <<[i |-> 1]>>, x |-> 1],
  [op |-> "ins", d |-> 1, path |-> <<>>, i |-> 1, x |-> 2],
  [op |-> "pop", d |-> 1, path |-> <<>>, x |-> 1],
  [op |-> "set", d |-> 1, path |-> <<>>, i |-> 0, x |-> 2],
  [op |-> "put", d |-> 1, path |-> <<>>, k |-> a, x |-> 2],
  [op |-> "put", d |-> 1, path |-> <<[k |-> a]>>, k |-> b, x |-> 1],
  [op |-> "del", d |-> 1, path |-> <<>>, k |-> a, x |-> 1] }
Zero == [t |-> "i", n |-> <<48>>]
Init == s = <<Zero, Zero>> /\ hist = <<>> /\ last = s
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : hist' = Append(hist, o) /\ s' = Do(s, o).s /\ last' = s
Spec == Init /\ [][Next]_vars
Op == hist[Len(hist)]
Effect ==
  hist = <<>> \/
  /\ s[3 - Op.d] = last[3 - Op.d]
  /\ Do(last, Op).a = FALSE => s = last
  /\ (Op.op = "put" /\ Op.path = <<>> /\ Do(last, Op).a) =>
       /\ Find(s[Op.d], Op.k) = <<last[Op.x]>>
       /\ \A k \in {a, b} \ {Op.k} : Find(s[Op.d], k) = Find(last[Op.d], k)
  /\ (Op.op = "del" /\ Do(last, Op).a) =>
       /\ Find(s[Op.d], Op.k) = <<>>
       /\ \A k \in {a, b} \ {Op.k} : Find(s[Op.d], k) = Find(last[Op.d], k)
  /\ (Op.op = "push" /\ Op.path = <<>> /\ Do(last, Op).a) =>
       /\ Len(s[1].l) = Len(last[1].l) + 1
       /\ \A i \in 0..Len(last[1].l) - 1 : At(s[1], i) = At(last[1], i)
       /\ At(s[1], Len(last[1].l)) = <<last[Op.x]>>
Inv == /\ \A i \in 1..2 : IsValue(s[i])
       /\ \A i \in 1..2 : Denote(Enc(s[i])).v = s[i]
       /\ (s[1] = s[2]) = (Enc(s[1]) = Enc(s[2]))
       /\ Effect
       /\ (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson([h |-> hist]))
=============================================================================
