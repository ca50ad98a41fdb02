------------------------------ MODULE MCText ------------------------------
(* Text on all short strings over small alphabets; printed for the code.     *)
EXTENDS Text, Json, TLC
CONSTANTS Part, Max, Emit
VARIABLE x
Alphabet ==
  CASE Part = "hex" -> {48, 57, 97, 70, 103, 0, 255}
    [] Part = "b32" -> {65, 122, 50, 55, 61, 49, 56}
    [] Part = "b32bytes" -> {0, 1, 128, 255, 90}
    [] Part = "pct" -> {37, 43, 52, 70, 97, 103, 195, 169}
    [] Part = "split" -> {34, 44, 97, 32}
    [] Part = "trim" -> {32, 9, 13, 10, 11, 97}
    [] Part = "int" -> {48, 49, 57, 45, 43, 97, 32}
Same(c, d) == Lower(c) = Lower(d)
Join(a, sep, b) == a \o <<sep>> \o b
RECURSIVE JoinAll(_, _)
JoinAll(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE Join(q[1], sep, JoinAll(Tail(q), sep))
Ok ==
  CASE Part = "hex" -> /\ ToHex(x) # <<>> \/ x = <<>>
                       /\ FromHex(ToHex(x)) = <<x>>
                       /\ (FromHex(x) # <<>> => LET h == ToHex(FromHex(x)[1]) IN
                             Len(h) = Len(x) /\ \A i \in 1..Len(x) : Same(h[i], x[i]))
    [] Part = "b32" -> LET r == FromB32(x) IN
                         r.w = "exact" =>
                           \E p \in BOOLEAN : LET y == ToB32(r.v, TRUE, p) IN
                             Len(y) = Len(x) /\ \A i \in 1..Len(x) : Same(y[i], x[i])
    [] Part = "b32bytes" -> \A u \in BOOLEAN : \A p \in BOOLEAN : FromB32(ToB32(x, u, p)) = [w |-> "exact", v |-> x]
    [] Part = "pct" -> LET r == Unescape(x) IN
                         /\ (\A i \in 1..Len(x) : x[i] # 37) => r = <<[i \in 1..Len(x) |-> IF x[i] = 43 THEN 32 ELSE x[i]]>>
                         /\ (r # <<>> => r[1] = FormDecode(x))
                         /\ Utf8(Lossy(x)) /\ (Utf8(x) => Lossy(x) = x)
    [] Part = "split" -> \A sep \in {34, 44, 32} :
                           LET p == SplitPos(x, sep) d == Parts(x, p.p) IN
                           /\ SplitOk(x, sep, d.a, d.b)
                           /\ (p.p > 0 => x[p.p] = sep /\ Join(d.a, sep, d.b) = x)
                           /\ (p.p = 0 => d.a = x /\ d.b = <<>>)
                           /\ (~\E i \in 1..Len(x) : x[i] = QUOTE) =>
                                LET q == SplitAll(x, sep) j == JoinAll(q, sep) IN
                                  /\ x = j \/ x = Append(j, sep)
                                  /\ \A i \in 1..Len(q) : \A k \in 1..Len(q[i]) : q[i][k] # sep
    [] Part = "trim" -> LET t == Trim(x) IN
                          /\ Trim(t) = t
                          /\ \E i \in 0..Len(x) : \E j \in 0..Len(x) - i :
                               /\ \A k \in 1..i : Blank(x[k])
                               /\ \A k \in Len(x) - j + 1..Len(x) : Blank(x[k])
                               /\ t = SubSeq(x, i + 1, Len(x) - j)
                          /\ (t # <<>> => ~Blank(t[1]) /\ ~Blank(t[Len(t)]))
    [] Part = "int" -> LET n == ParseI64(x) IN
                         n # <<>> => /\ \E i \in 1..Len(x) : Digit(x[i])
                                     /\ \A i \in 2..Len(x) : Digit(x[i])
                                     /\ ParseI64(n[1]) = n
Inv == Ok /\ (Emit => PrintT("@" \o ToJson([s |-> x])))
Init == x = <<>>
Next == Len(x) < Max /\ \E b \in Alphabet : x' = Append(x, b)
Spec == Init /\ [][Next]_x
=============================================================================
