------------------------------ MODULE MCDocs ------------------------------
(* Docs on its own: everything saved is read back, directly and through the  *)
(* encoded bytes, and spoilt entries do not touch the others.                *)
EXTENDS Docs, Json, TLC
CONSTANTS Part, Max, Emit
VARIABLES x
vars == x
Out(v) == Emit => PrintT("@" \o ToJson(v))

(* ------------------------------ node state ------------------------------ *)
Rep(n, b) == [i \in 1..n |-> b]
Ids == {Rep(20, 1) \o <<1, 2, 3, 4>>, Rep(20, 0) \o Rep(16, 255), Rep(20, 255) \o Loopback}
Eps == {<<10, 0, 0, 1, 26, 225>>, <<255, 255, 255, 255, 0, 0>>, Rep(16, 254) \o <<255, 255>>}
IdLists == UNION {[1..n -> Ids] : n \in 0..Max}
EpLists == UNION {[1..n -> Eps] : n \in 0..Max}
Junk == {[t |-> "i", n |-> <<C0>>], Str(<<>>), Str(Rep(5, 1)), Str(Rep(7, 1)), Str(Rep(17, 1)), Str(Rep(19, 1)),
         Str(Rep(20, 1)), Str(Rep(25, 1)), Str(Rep(35, 1)), Str(Rep(37, 1)), [t |-> "l", l |-> <<Str(Rep(6, 1))>>],
         [t |-> "d", d |-> <<>>]}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
StateOk ==
  LET doc == SaveState(x)
      r == Denote(Enc(doc))
  IN /\ ReadState(doc) = x
     /\ r.ok /\ r.v = doc /\ ReadState(r.v) = x
     (* one entry spoilt *)
     /\ \A f \in 1..Len(doc.d) : \A i \in 1..Len(doc.d[f].v.l) : \A j \in Junk :
          LET d2 == [doc EXCEPT !.d[f].v.l[i] = j]
              k == doc.d[f].k
              s == ReadState(d2)
          IN s = CASE k = KNodeId -> [x EXCEPT !.nids = Without(@, i)]
                   [] k = KNodes -> [x EXCEPT !.nodes = Without(@, i)]
                   [] OTHER -> [x EXCEPT !.nodes6 = Without(@, i)]
     (* one list spoilt, or gone *)
     /\ \A f \in 1..Len(doc.d) : \A j \in Junk \ {Str(Rep(20, 1))} :
          LET k == doc.d[f].k
              gone == CASE k = KNodeId -> [x EXCEPT !.nids = <<>>]
                        [] k = KNodes -> [x EXCEPT !.nodes = <<>>]
                        [] OTHER -> [x EXCEPT !.nodes6 = <<>>]
          IN /\ ReadState([doc EXCEPT !.d = Without(@, f)]) = gone
             /\ (j.t # "l" => ReadState([doc EXCEPT !.d[f].v = j]) = gone)
     /\ \A j \in Junk : ReadState(j) = NoState
     (* once per state, and once per kind of damage on the fullest *)
     /\ Out([doc |-> doc])
     /\ (Emit /\ Len(x.nids) = Max /\ Len(x.nodes) = Max /\ Len(x.nodes6) = 1 =>
           \A f \in 1..3 : \A j \in Junk :
             /\ Out([doc |-> [doc EXCEPT !.d[f].v.l[1] = j]])
             /\ Out([doc |-> [doc EXCEPT !.d[f].v = j]]))

(* ------------------------------- settings ------------------------------- *)
(* any two options given, each of a few kinds *)
OptVals == {[t |-> "i", n |-> <<C0>>], [t |-> "i", n |-> <<C0 + 1>>], [t |-> "i", n |-> <<C9, C9, C9>>],
            [t |-> "i", n |-> <<CMINUS, C0 + 1>>], Str(<<C0 + 5>>), [t |-> "l", l |-> <<>>]}
Pairs == [i : 1..21, j : 1..21, v : OptVals, w : OptVals]

(* ------------------------------- messages ------------------------------- *)
Keys == {<<>>, <<97>>, <<97, 97>>, <<98>>}
Names == UNION {[1..n -> Keys] : n \in 0..Max}
Ordered(S) == LET f(k) == IF k = <<>> THEN 0 ELSE IF k = <<97>> THEN 1 ELSE IF k = <<97, 97>> THEN 2 ELSE 3
                  RECURSIVE G(_, _)
                  G(T, n) == IF n > 3 THEN <<>>
                             ELSE LET k == {y \in T : f(y) = n} IN
                               (IF k = {} THEN <<>> ELSE <<[k |-> CHOOSE y \in k : TRUE, v |-> [t |-> "i", n |-> <<C0 + n>>]]>>) \o G(T, n + 1)
              IN G(S, 0)
Msgs == {[t |-> "d", d |-> Ordered(S)] : S \in SUBSET Keys} \cup {[t |-> "i", n |-> <<C0>>], Str(<<97>>), [t |-> "l", l |-> <<>>]}
MsgOk ==
  LET r == Verify(x.doc, x.names) IN
  /\ (r # <<>>) = (x.doc.t = "d" /\ \A i \in 1..Len(x.names) : \E p \in 1..Len(x.doc.d) : x.doc.d[p].k = x.names[i])
  /\ (r # <<>> => \A i \in 1..Len(x.names) : [k |-> x.names[i], v |-> r[1][i]] \in {x.doc.d[p] : p \in 1..Len(x.doc.d)})
  /\ Out(x)

(* -------------------------------- streams ------------------------------- *)
Kinds == {"v4", "v6", "v4s", "v6s"}
KindSeqs == UNION {[1..n -> Kinds] : n \in 0..Max}
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Width(q[1]) + Total(Tail(q))
WireOk ==
  LET n == Total(x.w)
      b == [i \in 1..n |-> i]
      RECURSIVE R(_, _)
      R(q, p) == IF q = <<>> THEN p
                 ELSE LET a == ReadAt(b, p, q[1]) IN IF a = <<>> THEN -1 ELSE R(Tail(q), p + Width(q[1]))
  IN /\ R(x.w, 0) = n
     /\ (R(x.r, 0) = -1) = (Total(x.r) > n)
     /\ Out(x)

Init == TRUE
        /\ CASE Part = "state" -> x \in [nids : IdLists, nodes : EpLists, nodes6 : UNION {[1..n -> Eps] : n \in 0..1}]
             [] Part = "opts" -> x \in {p \in Pairs : p.i < p.j}
             [] Part = "msg" -> x \in [doc : Msgs, names : Names]
             [] Part = "wire" -> x \in [w : KindSeqs, r : KindSeqs]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inv == CASE Part = "state" -> StateOk [] Part = "opts" -> Out(x) [] Part = "msg" -> MsgOk [] Part = "wire" -> WireOk
=============================================================================
