-------------------------------- MODULE Edit --------------------------------
(* Values built with the constructors and edited in place (Value, ValueRef). *)
(* A state is a sequence of registers, each holding a value of its own.      *)
EXTENDS Bencode, FiniteSets
RECURSIVE SetKey(_, _, _, _)
(* the entry of key k becomes v *)
SetKey(d, k, v, i) ==
  IF i > Len(d) THEN Append(d, [k |-> k, v |-> v])
  ELSE IF d[i].k = k THEN [d EXCEPT ![i].v = v]
  ELSE IF LexLess(k, d[i].k) THEN SubSeq(d, 1, i - 1) \o <<[k |-> k, v |-> v]>> \o SubSeq(d, i, Len(d))
  ELSE SetKey(d, k, v, i + 1)
(* the value with an edit done at its top: <<>> if it does not apply *)
Act(v, o, x) ==
  CASE o.op = "push" -> IF v.t = "l" THEN <<[v EXCEPT !.l = Append(@, x)]>> ELSE <<>>
    [] o.op = "pop" -> IF v.t # "l" THEN <<>> ELSE IF v.l = <<>> THEN <<>> ELSE <<[v EXCEPT !.l = SubSeq(@, 1, Len(@) - 1)]>>
    [] o.op = "set" -> IF v.t # "l" THEN <<>> ELSE IF o.i >= Len(v.l) THEN <<>> ELSE <<[v EXCEPT !.l[o.i + 1] = x]>>
    [] o.op = "ins" -> IF v.t # "l" THEN <<>> ELSE IF o.i > Len(v.l) THEN <<>>
                       ELSE <<[v EXCEPT !.l = SubSeq(@, 1, o.i) \o <<x>> \o SubSeq(@, o.i + 1, Len(@))]>>
    [] o.op = "put" -> IF v.t = "d" THEN <<[v EXCEPT !.d = SetKey(@, o.k, x, 1)]>> ELSE <<>>
    [] o.op = "del" -> IF v.t # "d" THEN <<>> ELSE IF \A i \in 1..Len(v.d) : v.d[i].k # o.k THEN <<>>
                       ELSE <<[v EXCEPT !.d = SelectSeq(@, LAMBDA e : e.k # o.k)]>>
    [] OTHER -> <<>>
RECURSIVE EditAt(_, _, _, _, _)
(* the same somewhere inside: path is a sequence of [k] and [i] *)
EditAt(v, path, n, o, x) ==
  IF n > Len(path) THEN Act(v, o, x)
  ELSE IF "k" \in DOMAIN path[n]
  THEN IF v.t # "d" THEN <<>>
       ELSE LET at == {i \in 1..Len(v.d) : v.d[i].k = path[n].k} IN
         IF at = {} THEN <<>>
         ELSE LET i == CHOOSE j \in at : TRUE r == EditAt(v.d[i].v, path, n + 1, o, x)
              IN IF r = <<>> THEN <<>> ELSE <<[v EXCEPT !.d[i].v = r[1]]>>
  ELSE IF v.t # "l" THEN <<>>
       ELSE IF path[n].i >= Len(v.l) THEN <<>>
       ELSE LET r == EditAt(v.l[path[n].i + 1], path, n + 1, o, x)
            IN IF r = <<>> THEN <<>> ELSE <<[v EXCEPT !.l[path[n].i + 1] = r[1]]>>
RECURSIVE DictOf(_, _, _, _)
(* pairs in any order; a later one replaces an earlier one *)
DictOf(ks, xs, i, d) == IF i > Len(ks) THEN d ELSE DictOf(ks, xs, i + 1, SetKey(d, ks[i], xs[i], 1))
(* [s |-> registers, a |-> answer] after an operation *)
Do(s, o) ==
  LET to(v) == [s |-> [s EXCEPT ![o.d] = v], a |-> TRUE]
      none == [s |-> s, a |-> FALSE]
  IN CASE o.op = "int" -> to([t |-> "i", n |-> o.n])
       [] o.op = "str" -> to([t |-> "s", b |-> o.b])
       [] o.op = "list" -> to([t |-> "l", l |-> [i \in 1..Len(o.xs) |-> s[o.xs[i]]]])
       [] o.op = "dict" -> to([t |-> "d", d |-> DictOf(o.ks, [i \in 1..Len(o.xs) |-> s[o.xs[i]]], 1, <<>>)])
       [] o.op = "copy" -> to(s[o.x])
       [] o.op = "conv" -> to(s[o.d])
       [] o.op = "eq" -> [s |-> s, a |-> s[o.d] = s[o.x]]
       (* taken apart and put together again *)
       [] o.op = "unlist" -> [s |-> s, a |-> s[o.d].t = "l"]
       [] o.op = "undict" -> [s |-> s, a |-> s[o.d].t = "d"]
       [] OTHER -> LET r == EditAt(s[o.d], o.path, 1, o, s[o.x]) IN IF r = <<>> THEN none ELSE to(r[1])
=============================================================================
