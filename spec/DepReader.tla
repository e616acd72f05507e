------------------------------ MODULE DepReader ------------------------------
(***************************************************************************)
(* How the readers of a DEP work, on every small document: as the text     *)
(* comes in element by element (file, stream, certless) or by walking      *)
(* through the document in memory (dict). The contract they have to keep   *)
(* is in ReaderContract.                                                   *)
(*                                                                         *)
(* A group of a document: [ord, cert, chain, recs]; ord is the order of    *)
(* its elements S(ignaturzertifikat), Z(ertifizierungsstellen) and         *)
(* R (Belege-kompakt).                                                     *)
(***************************************************************************)
EXTENDS ReaderContract, TLC, Json

CONSTANTS Orders, CertChoices, MaxRecs, MaxGroups, Chunks, Kinds, Emit

Order(o) == CASE o = "SZR" -> <<"S", "Z", "R">> [] o = "ZSR" -> <<"Z", "S", "R">>
              [] o = "SRZ" -> <<"S", "R", "Z">> [] o = "ZRS" -> <<"Z", "R", "S">>
              [] o = "RSZ" -> <<"R", "S", "Z">> [] o = "RZS" -> <<"R", "Z", "S">>
Late(o) == o \notin {"SZR", "ZSR"}

CertOf(c) == CASE c = "none" -> NoCert [] c = "bare" -> "A" [] c = "chain" -> "B"
               [] c = "long" -> "A" [] c = "rootless" -> NoCert
ChainOf(c) == CASE c = "chain" -> <<"C">> [] c = "long" -> <<"B", "C">>
                [] c = "rootless" -> <<"C">> [] OTHER -> <<>>

Shapes == [o : Orders, c : CertChoices, n : 0..MaxRecs]

Groups(sh) == [g \in DOMAIN sh |->
                [cert |-> CertOf(sh[g].c), chain |-> ChainOf(sh[g].c), late |-> Late(sh[g].o),
                 recs |-> [i \in 1..sh[g].n |-> g * 10 + i]]]

\* the document as the sequence of what the reader sees
Elem(g, e, gr) ==
  CASE e = "S" -> <<[t |-> "S", g |-> g, r |-> 0]>>
    [] e = "Z" -> <<[t |-> "Z", g |-> g, r |-> 0]>>
    [] e = "R" -> <<[t |-> "[", g |-> g, r |-> 0]>>
                  \o [i \in DOMAIN gr.recs |-> [t |-> "r", g |-> g, r |-> gr.recs[i]]]
                  \o <<[t |-> "]", g |-> g, r |-> 0]>>
Tokens(sh, doc) ==
  FlattenSeq([g \in DOMAIN sh |->
     <<[t |-> "{", g |-> g, r |-> 0]>>
     \o FlattenSeq([i \in 1..3 |-> Elem(g, Order(sh[g].o)[i], doc[g])])
     \o <<[t |-> "}", g |-> g, r |-> 0]>>])

VARIABLES shape, kind, k, todo, wip, chunk, out, status
vars == <<shape, kind, k, todo, wip, chunk, out, status>>

Doc == Groups(shape)
NoWip == [cert |-> NoCert, certRead |-> FALSE, chain |-> <<>>, chainRead |-> FALSE, recs |-> <<>>]

Init == /\ \E n \in 1..MaxGroups : shape \in [1..n -> Shapes]
        /\ kind \in Kinds /\ k \in Chunks
        /\ todo = Tokens(shape, Doc)
        /\ wip = NoWip /\ chunk = <<>> /\ out = <<>> /\ status = "reading"

Part(w) == IF w.recs = <<>> THEN <<>>
           ELSE <<[recs |-> w.recs, cert |-> w.cert, chain |-> w.chain]>>

\* taking in one token, before looking whether a chunk is complete
Absorb(w, tok) ==
  CASE tok.t = "{" -> NoWip
    [] tok.t = "S" -> [w EXCEPT !.cert = Doc[tok.g].cert, !.certRead = TRUE]
    [] tok.t = "Z" -> [w EXCEPT !.chain = Doc[tok.g].chain, !.chainRead = TRUE]
    [] tok.t = "r" -> [w EXCEPT !.recs = Append(@, tok.r)]
    [] OTHER -> w

\* the second pass over the file
Lookup(w, g) == [w EXCEPT !.cert = Doc[g].cert, !.certRead = TRUE,
                          !.chain = Doc[g].chain, !.chainRead = TRUE]

Read ==
  /\ status = "reading" /\ kind # "dict" /\ todo # <<>>
  /\ LET tok == Head(todo)
         w1 == Absorb(wip, tok)
         c1 == IF tok.t = "}" THEN chunk \o Part(w1) ELSE chunk
         w2 == IF tok.t = "}" THEN [w1 EXCEPT !.recs = <<>>] ELSE w1
         full == k > 0 /\ Size(c1) + Len(w2.recs) >= k
         blind == tok.t # "{" /\ ~(w2.certRead /\ w2.chainRead)
     IN  /\ todo' = Tail(todo)
         /\ IF ~full THEN wip' = w2 /\ chunk' = c1 /\ UNCHANGED <<out, status>>
            ELSE IF blind /\ kind = "stream"
            THEN wip' = w2 /\ chunk' = c1 /\ status' = "no-cert" /\ UNCHANGED out
            ELSE LET w3 == IF blind /\ kind = "file" THEN Lookup(w2, tok.g) ELSE w2
                 IN  /\ out' = Append(out, c1 \o Part(w3))
                     /\ chunk' = <<>> /\ wip' = [w3 EXCEPT !.recs = <<>>]
                     /\ UNCHANGED status
  /\ UNCHANGED <<shape, kind, k>>

Finish ==
  /\ status = "reading" /\ kind # "dict" /\ todo = <<>>
  /\ LET last == chunk \o Part(wip)
     IN  /\ out' = IF last # <<>> THEN Append(out, last) ELSE out
         /\ status' = IF out' = <<>> THEN "empty" ELSE "read"
  /\ chunk' = <<>> /\ wip' = NoWip
  /\ UNCHANGED <<shape, kind, k, todo>>

\* the reader of a document in memory: group by group, or in pieces of k
RECURSIVE Pieces(_, _, _, _)
Pieces(doc, size, cur, acc) ==      \* cur: the chunk being filled
  IF doc = <<>> THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE LET g == Head(doc)
           room == size - Size(cur)
           n == IF Len(g.recs) < room THEN Len(g.recs) ELSE room
           part == IF n = 0 THEN <<>> ELSE <<[recs |-> SubSeq(g.recs, 1, n), cert |-> g.cert,
                                            chain |-> g.chain]>>
           rest == [g EXCEPT !.recs = SubSeq(g.recs, n + 1, Len(g.recs))]
           cur2 == cur \o part
           doc2 == IF rest.recs = <<>> THEN Tail(doc) ELSE <<rest>> \o Tail(doc)
       IN  IF Size(cur2) = size THEN Pieces(doc2, size, <<>>, Append(acc, cur2))
           ELSE Pieces(doc2, size, cur2, acc)

DictRead(doc, size) ==
  IF size = 0
  THEN LET full == SelectSeq(doc, LAMBDA g : g.recs # <<>>)
       IN  [i \in DOMAIN full |-> <<[recs |-> full[i].recs, cert |-> full[i].cert,
                                     chain |-> full[i].chain]>>]
  ELSE Pieces(doc, size, <<>>, <<>>)

ReadDict ==
  /\ status = "reading" /\ kind = "dict"
  /\ out' = DictRead(Doc, k)
  /\ status' = IF out' = <<>> THEN "empty" ELSE "read"
  /\ UNCHANGED <<shape, kind, k, todo, wip, chunk>>

Next == Read \/ Finish \/ ReadDict
Spec == Init /\ [][Next]_vars

Done == status # "reading"

KeepsContract == Done => ReadFault(Doc, kind, k, 1, status = "read", out) = ""
\* a reader never holds more than one chunk's worth of receipts
Bounded == k > 0 => Size(chunk) + Len(wip.recs) <= k
\* what has been delivered is right at all times
RightSoFar == MatchesStart(kind, Flat(out), FlatGroups(Doc))
OnlyStreamGivesUp == status = "no-cert" => kind = "stream" /\ MayMissCert(Doc, k)
\* cutting into n parts gives at most n chunks
PartsOK == kind = "dict" /\ status = "reading" =>
  \A n \in 2..4 : LET total == Total(Doc)
                  IN  total > 0 => Len(DictRead(Doc, CeilDiv(total, n))) <= n

\* printed once for every document
Plan == (Emit /\ status = "reading" /\ kind = "dict" /\ k = 0) =>
          PrintT("PLAN " \o ToJson([g \in DOMAIN shape |-> shape[g]]))
=============================================================================
