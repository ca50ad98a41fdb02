----------------------------- MODULE MCTorrent -----------------------------
(* Torrent on a well-formed file in which up to Max fields are replaced.     *)
EXTENDS Torrent, Json, TLC
CONSTANTS Max, Emit
VARIABLE x
S(b) == [t |-> "s", b |-> b]
I(n) == [t |-> "i", n |-> n]
L(q) == [t |-> "l", l |-> q]
a == <<97>>
Url == Http \o <<CCOLON, SLASH, SLASH, 104, SLASH, 97>>
Twenty(n) == [i \in 1..20 * n |-> 120]
One == I(<<49>>) Neg == I(<<45, 49>>)
RECURSIVE FromPairs(_, _)
FromPairs(q, d) == IF q = <<>> THEN [t |-> "d", d |-> d]
                   ELSE FromPairs(Tail(q), IF q[1].v = <<>> THEN d ELSE Put(d, q[1].k, q[1].v[1]))
Dict(q) == FromPairs(q, <<>>)
File(len, path) == Dict(<<[k |-> KLength, v |-> len], [k |-> KPath, v |-> path]>>)
P(q) == <<L(q)>>
(* field -> choices: <<value or none, is it fine>>; the first is the base *)
Names == << <<<<S(a)>>, TRUE>>, <<<<>>, FALSE>>, <<<<One>>, FALSE>>, <<<<S(<<>>)>>, FALSE>>, <<<<S(<<DOT>>)>>, FALSE>>,
            <<<<S(<<DOT, DOT>>)>>, FALSE>>, <<<<S(<<97, SLASH>>)>>, FALSE>>, <<<<S(<<SLASH, 97>>)>>, FALSE>>,
            <<<<S(<<97, SLASH, 98>>)>>, FALSE>>, <<<<S(<<SLASH>>)>>, FALSE>>, <<<<S(<<195>>)>>, FALSE>>,
            <<<<S(<<195, 169>>)>>, TRUE>>, <<<<S(<<DOT, DOT, DOT>>)>>, TRUE>>, <<<<S(<<DOT, 97>>)>>, TRUE>>, <<<<S(<<32>>)>>, TRUE>>,
            <<<<L(<<S(a)>>)>>, FALSE>> >>
Choices(f) ==
  CASE f = "url" -> << <<<<S(Url)>>, TRUE>>, <<<<>>, FALSE>>, <<<<One>>, FALSE>>, <<<<S(<<>>)>>, FALSE>>,
                       <<<<S(<<SLASH, 97>>)>>, FALSE>>, <<<<S(<<195>> \o Url)>>, FALSE>>, <<<<L(<<S(Url)>>)>>, FALSE>> >>
    [] f = "name" -> Names
    [] f = "seg" -> << <<<<>>, TRUE>> >> \o SelectSeq(Names, LAMBDA n : n[1] # <<>>)
    [] f = "plen" -> << <<<<One>>, TRUE>>, <<<<>>, FALSE>>, <<<<Neg>>, FALSE>>, <<<<S(a)>>, FALSE>>, <<<<I(<<48>>)>>, TRUE>>,
                        <<<<I(IMax)>>, TRUE>>, <<<<I(<<CMINUS>> \o IMin)>>, FALSE>> >>
    [] f = "pieces" -> << <<<<S(Twenty(1))>>, TRUE>>, <<<<>>, FALSE>>, <<<<S(<<>>)>>, TRUE>>, <<<<S(Twenty(2))>>, TRUE>>,
                          <<<<S(Tail(Twenty(1)))>>, FALSE>>, <<<<S(a \o Twenty(1))>>, FALSE>>, <<<<One>>, FALSE>>,
                          <<<<S([i \in 1..20 |-> 255])>>, TRUE>> >>
    [] f = "len" -> << <<<<One>>, TRUE>>, <<<<>>, FALSE>>, <<<<Neg>>, FALSE>>, <<<<S(a)>>, FALSE>>, <<<<I(IMax)>>, TRUE>>,
                       <<<<I(<<48>>)>>, TRUE>> >>
    [] f = "files" -> << <<<<>>, TRUE>>,          (* as body says *)
                         <<<<L(<<>>)>>, TRUE>>, <<<<One>>, FALSE>>, <<<<L(<<One>>)>>, FALSE>>,
                         <<<<L(<<File(<<One>>, <<>>)>>)>>, FALSE>>, <<<<L(<<File(<<>>, P(<<S(a)>>))>>)>>, FALSE>>,
                         <<<<L(<<File(<<Neg>>, P(<<S(a)>>))>>)>>, FALSE>>, <<<<L(<<File(<<One>>, P(<<>>))>>)>>, FALSE>>,
                         <<<<L(<<File(<<One>>, <<S(a)>>)>>)>>, FALSE>>,
                         <<<<L(<<File(<<One>>, P(<<S(a), S(a)>>)), File(<<I(<<50>>)>>, P(<<S(<<98>>)>>))>>)>>, TRUE>>,
                         <<<<L(<<File(<<One>>, P(<<S(a)>>)), File(<<Neg>>, P(<<S(<<98>>)>>))>>)>>, FALSE>>,
                         <<<<Dict(<<>>)>>, FALSE>> >>
    [] f = "body" -> << <<"single", TRUE>>, <<"multi", TRUE>>, <<"both", FALSE>>, <<"neither", FALSE>> >>
    [] f = "info" -> << <<"there", TRUE>>, <<"gone", FALSE>>, <<"list", FALSE>> >>
    [] f = "root" -> << <<"dict", TRUE>>, <<"list", FALSE>> >>
Fields == {"url", "name", "seg", "plen", "pieces", "len", "files", "body", "info", "root"}
Get(f) == Choices(f)[x[f]][1]
Fine(f) == Choices(f)[x[f]][2]
Pair(k, v) == [k |-> k, v |-> v]
TheFiles == IF Get("files") # <<>> THEN Get("files")
            ELSE P(<<File(<<One>>, P(<<S(a)>> \o Get("seg"))), File(<<One>>, P(Get("seg") \o <<S(<<98>>)>>))>>)
Info == Dict(<<Pair(KName, Get("name")), Pair(KPlen, Get("plen")), Pair(KPieces, Get("pieces"))>>
             \o (IF Get("body") \in {"single", "both"} THEN <<Pair(KLength, Get("len"))>> ELSE <<>>)
             \o (IF Get("body") \in {"multi", "both"} THEN <<Pair(KFiles, TheFiles)>> ELSE <<>>))
Root == Dict(<<Pair(KAnnounce, Get("url")),
               Pair(KInfo, CASE Get("info") = "there" -> <<Info>> [] Get("info") = "gone" -> <<>> [] OTHER -> P(<<Info>>))>>)
Doc == IF Get("root") = "dict" THEN Root ELSE L(<<Root>>)
Multi == Get("body") = "multi"
Single == Get("body") = "single"
AllFine == /\ \A f \in {"url", "name", "plen", "pieces", "info", "root"} : Fine(f)
           /\ \/ Single /\ Fine("len")
              \/ Multi /\ Fine("files") /\ (Get("files") = <<>> => Fine("seg"))
              (* of two, one that is missing does not count *)
              \/ Get("body") = "both" /\ Get("len") = <<>> /\ Fine("files") /\ (Get("files") = <<>> => Fine("seg"))
Inv == LET r == Read(Enc(Doc)) IN
  /\ IsValue(Doc)
  /\ (r.w = "ok") = AllFine
  /\ (r.w = "none") = ~AllFine
  /\ r.w # "none" =>
       /\ \A i \in 1..Len(r.files) : Inside(r.files[i].p)
       /\ Len(r.pieces) % 20 = 0 /\ PlainName(r.name)
       /\ (r.single => r.files = <<[p |-> r.name, n |-> Get("len")[1].n]>>)
       /\ (~r.single /\ Get("files") = <<>> =>
             /\ Len(r.files) = 2
             /\ r.files[1].p = (IF Get("seg") = <<>> THEN a ELSE a \o <<SLASH>> \o Get("seg")[1].b)
             /\ r.files[2].p = (IF Get("seg") = <<>> THEN <<98>> ELSE Get("seg")[1].b \o <<SLASH, 98>>))
  /\ (Emit => PrintT("@" \o ToJson([doc |-> Doc])))
Init == x = [f \in Fields |-> 1]
Next == /\ Cardinality({f \in Fields : x[f] # 1}) < Max
        /\ \E f \in Fields : x[f] = 1 /\ \E i \in 2..Len(Choices(f)) : x' = [x EXCEPT ![f] = i]
Spec == Init /\ [][Next]_x
=============================================================================
