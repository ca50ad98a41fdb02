---------------------------- MODULE TraceTorrent ----------------------------
(* Recorded parses of torrent files, explained by Torrent.                   *)
EXTENDS Torrent, TraceLib
VARIABLES c, l
Gave(e, w) ==
  /\ e.r.name = <<w.name>> /\ e.r.plen = w.plen /\ e.r.pieces = w.pieces /\ e.r.single = w.single
  /\ (w.announce # <<>> => e.r.announce = w.announce)
  /\ Len(e.r.files) = Len(w.files)
  /\ \A i \in 1..Len(w.files) : e.r.files[i].p = w.files[i].p /\ e.r.files[i].n = w.files[i].n /\ Inside(e.r.files[i].p)
(* the closed form of the large ones *)
Tens == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Pos(n, w, j) == IF w - j + 1 > 9 THEN 48 ELSE 48 + ((n \div Tens[w - j + 1]) % 10)
WidePath(i, m, s) ==
  [j \in 1..(m * (s + 1) - 1) |->
     LET k == (j - 1) \div (s + 1)  o == ((j - 1) % (s + 1)) + 1 IN
     IF o > s THEN SLASH ELSE Pos((i * 100) + k + 1, s, o)]
Wide(e) ==
  /\ e.r.k = "ok" /\ e.r.name = <<<<97>>>> /\ e.r.plen = <<49>>
  /\ e.r.announce = <<104,116,116,112,58,47,47,104,47,97>>
  /\ Len(e.r.pieces) = 20 * e.p
  /\ \A j \in 1..Len(e.r.pieces) : e.r.pieces[j] = ((j - 1) % 250) + (((j - 1) \div 250) % 6)
  /\ IF e.n = 0 THEN e.r.single /\ Len(e.r.files) = 1 /\ e.r.files[1].p = <<97>> /\ e.r.files[1].n = <<55>>
     ELSE /\ ~e.r.single /\ Len(e.r.files) = e.n
          /\ \A i \in 1..e.n : e.r.files[i].n = Digits(i) /\ e.r.files[i].p = WidePath(i, e.m, e.s)
Explained(e) ==
  IF e.r.k \notin {"ok", "err"} THEN FALSE
  (* a good file with n lists within each other in an unknown field *)
  ELSE IF e.f = "nested" THEN (e.r.k = "ok" \/ e.n > MaxDepth - 5)
  ELSE IF e.f = "wide" THEN (IF e.r.k = "ok" THEN Wide(e) ELSE FALSE)
  ELSE LET w == Read(e.b) IN
    IF e.r.k = "err" THEN w.w # "ok" ELSE w.w # "none" /\ Gave(e, w)
Init == c \in 1..Len(Cases) /\ l = 1
Next ==
  \/ /\ l <= Len(Cases[c].ev)
     /\ (Explained(Cases[c].ev[l]) = TRUE)
     /\ l' = l + 1 /\ c' = c
  \/ l > Len(Cases[c].ev) /\ Done(c) /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
