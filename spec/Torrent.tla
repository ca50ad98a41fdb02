------------------------------- MODULE Torrent -------------------------------
(* Torrent files (src/torrent.rs), from the bytes of the file to what it     *)
(* describes.  A result is [w |-> "none"] (must be refused) or               *)
(* [w |-> "ok" / "either" (may be refused), announce (<<>>: as normalised by *)
(* the URL library), name, plen, pieces, single, files: sequence of [p, n]]. *)
EXTENDS Bencode, FiniteSets

KAnnounce == <<97,110,110,111,117,110,99,101>>
KInfo == <<105,110,102,111>>
KName == <<110,97,109,101>>
KPlen == <<112,105,101,99,101,32,108,101,110,103,116,104>>
KPieces == <<112,105,101,99,101,115>>
KLength == <<108,101,110,103,116,104>>
KFiles == <<102,105,108,101,115>>
KPath == <<112,97,116,104>>
SLASH == 47  DOT == 46

(********************************** names ***********************************)
(* names that stay where they are put *)
PlainName(s) == s # <<>> /\ s # <<DOT>> /\ s # <<DOT, DOT>> /\ \A i \in 1..Len(s) : s[i] # SLASH
(* not portable, so they may be refused as well *)
Odd(s) == \E i \in 1..Len(s) : s[i] \in {0, 92}
RECURSIVE JoinSlash(_)
JoinSlash(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<SLASH>> \o JoinSlash(Tail(q))

(********************************* announce *********************************)
Alpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
LowAlpha(c) == c >= 97 /\ c <= 122
Blankish(c) == c <= 32
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Blankish(s[1]) THEN LStrip(Tail(s)) ELSE s
(* has it a scheme?  What has none is no URL. *)
HasScheme(s) ==
  LET t == SelectSeq(LStrip(s), LAMBDA c : c \notin {9, 10, 13})
      q == FindByte(t, CCOLON, 1)
  IN q > 1 /\ Alpha(t[1]) /\ \A i \in 1..q - 1 : Alpha(t[i]) \/ Digit(t[i]) \/ t[i] \in {43, 45, 46}
Http == <<104,116,116,112>>  Https == <<104,116,116,112,115>>  Udp == <<117,100,112>>
(* URLs that are kept as they are: scheme://host[:port]/path[?query] *)
Canonical(s) ==
  LET q == FindByte(s, CCOLON, 1) IN
  IF q = 0 \/ q + 2 > Len(s) THEN FALSE
  ELSE LET scheme == SubSeq(s, 1, q - 1)
           rest == SubSeq(s, q + 3, Len(s))
           h == FindByte(rest, SLASH, 1)
       IN IF scheme \notin {Http, Https, Udp} \/ s[q + 1] # SLASH \/ s[q + 2] # SLASH \/ h = 0 THEN FALSE
          ELSE LET hp == SubSeq(rest, 1, h - 1)
                   c == FindByte(hp, CCOLON, 1)
                   host == IF c = 0 THEN hp ELSE SubSeq(hp, 1, c - 1)
                   port == SubSeq(hp, c + 1, Len(hp))
                   tail == SubSeq(rest, h, Len(rest))
                   m == FindByte(tail, 63, 1)
                   path == IF m = 0 THEN tail ELSE SubSeq(tail, 1, m - 1)
                   query == IF m = 0 THEN <<>> ELSE SubSeq(tail, m + 1, Len(tail))
               IN /\ host # <<>> /\ Len(host) < 60 /\ \A i \in 1..Len(host) : LowAlpha(host[i])
                  /\ (c # 0 => /\ port # <<>> /\ Len(port) <= 4 /\ port[1] # C0
                               /\ \A i \in 1..Len(port) : Digit(port[i])
                               /\ port # <<56, 48>> /\ port # <<52, 52, 51>>)
                  /\ \A i \in 1..Len(path) : LowAlpha(path[i]) \/ Digit(path[i]) \/ path[i] \in {SLASH, 45, 95}
                  /\ \A i \in 1..Len(query) : LowAlpha(query[i]) \/ Digit(query[i]) \/ query[i] = 61

(********************************* metainfo *********************************)
MaxDepth == 100
MaxItems == 2000000
NoTorrent == [w |-> "none"]
Field(v, key) == IF v = <<>> THEN <<>> ELSE Find(v[1], key)
TextOf(v) == IF v = <<>> THEN <<>> ELSE AsStr(v[1])
SizeOf(v) == IF v = <<>> THEN <<>>
             ELSE LET n == AsInt(v[1]) IN IF n = <<>> THEN <<>> ELSE IF n[1][1] = CMINUS THEN <<>> ELSE n
(* one entry of the file list: <<[p, n]>> or <<>> *)
FileOf(f) ==
  LET n == SizeOf(Find(f, KLength))
      p == Find(f, KPath)
      segs == IF p = <<>> THEN <<>> ELSE AsList(p[1])
  IN IF n = <<>> \/ segs = <<>> THEN <<>>
     ELSE IF segs[1] = <<>> \/ \E i \in 1..Len(segs[1]) : AsStr(segs[1][i]) = <<>> THEN <<>>
     ELSE IF \E i \in 1..Len(segs[1]) : ~PlainName(segs[1][i].b) THEN <<>>
     ELSE <<[p |-> JoinSlash([i \in 1..Len(segs[1]) |-> segs[1][i].b]), n |-> n[1]]>>
Meta(doc) ==
  LET url == TextOf(Find(doc, KAnnounce))
      info == Find(doc, KInfo)
      name == TextOf(Field(info, KName))
      plen == SizeOf(Field(info, KPlen))
      pc == Field(info, KPieces)
      pieces == IF pc = <<>> THEN <<>> ELSE AsBytes(pc[1])
      len == Field(info, KLength)
      fs == Field(info, KFiles)
      list == IF fs = <<>> THEN <<>> ELSE AsList(fs[1])
      body == IF (len = <<>>) = (fs = <<>>) THEN <<>>
              ELSE IF len # <<>>
              THEN LET n == SizeOf(len) IN
                   IF n = <<>> \/ name = <<>> THEN <<>> ELSE <<[single |-> TRUE, files |-> <<[p |-> name[1], n |-> n[1]]>>]>>
              ELSE IF list = <<>> THEN <<>>
              ELSE IF \E i \in 1..Len(list[1]) : FileOf(list[1][i]) = <<>> THEN <<>>
              ELSE <<[single |-> FALSE, files |-> [i \in 1..Len(list[1]) |-> FileOf(list[1][i])[1]]]>>
  IN IF url = <<>> \/ name = <<>> \/ plen = <<>> \/ pieces = <<>> \/ body = <<>> THEN NoTorrent
     ELSE IF ~PlainName(name[1]) \/ Len(pieces[1]) % 20 # 0 \/ ~HasScheme(url[1]) THEN NoTorrent
     ELSE [w |-> IF Canonical(url[1]) /\ ~Odd(name[1]) /\ \A i \in 1..Len(body[1].files) : ~Odd(body[1].files[i].p)
                 THEN "ok" ELSE "either",
           announce |-> IF Canonical(url[1]) THEN url[1] ELSE <<>>,
           name |-> name[1], plen |-> plen[1], pieces |-> pieces[1],
           single |-> body[1].single, files |-> body[1].files]
Read(b) ==
  LET r == Denote(b) IN
  IF ~r.ok THEN NoTorrent
  ELSE LET m == Meta(r.v) IN
    IF m.w = "ok" /\ (OverDepth(r, MaxDepth) \/ OverItems(r, MaxItems)) THEN [m EXCEPT !.w = "either"] ELSE m

(* No path leaves the download directory, whatever was read. *)
Inside(p) == /\ p # <<>> /\ p[1] # SLASH
             /\ \A i \in 1..Len(p) : \A j \in i..Len(p) :
                  (i = 1 \/ p[i - 1] = SLASH) /\ (j = Len(p) \/ p[j + 1] = SLASH) =>
                    SubSeq(p, i, j) # <<DOT, DOT>> 
=============================================================================
