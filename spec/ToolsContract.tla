---------------------------- MODULE ToolsContract ----------------------------
(***************************************************************************)
(* What splitting, merging, exporting, converting and taking certificates  *)
(* out of DEPs has to give. Documents as in ReaderContract: sequences of   *)
(* groups [cert, chain, recs] (late is of interest only for reading).      *)
(***************************************************************************)
EXTENDS ReaderContract

Plain(g) == [cert |-> g.cert, chain |-> g.chain, recs |-> g.recs]
PlainDoc(gs) == [i \in DOMAIN gs |-> Plain(gs[i])]
NonEmpty(gs) == SelectSeq(gs, LAMBDA g : g.recs # <<>>)
SameCerts(a, b) == a.cert = b.cert /\ a.chain = b.chain

\* joins adjacent groups exactly if certificate and chain are equal
RECURSIVE JoinInto(_, _)
JoinInto(acc, gs) ==
  IF gs = <<>> THEN acc
  ELSE LET g == Plain(Head(gs)) IN
       IF acc # <<>> /\ SameCerts(acc[Len(acc)], g)
       THEN JoinInto([acc EXCEPT ![Len(acc)].recs = @ \o g.recs], Tail(gs))
       ELSE JoinInto(Append(acc, g), Tail(gs))
Join(gs) == JoinInto(<<>>, gs)

\* where groups end, counted in receipts
Bounds(gs) == {Total(SubSeq(gs, 1, i)) : i \in DOMAIN gs}

SameFlat(a, b) == FlatGroups(PlainDoc(a)) = FlatGroups(PlainDoc(b))

-----------------------------------------------------------------------------
(* The clause of the contract an operation breaks, or ""                   *)

\* the parts of a split
SplitFault(doc, k, parts) ==
  LET all == FlattenSeq(parts) IN
  IF \E i \in DOMAIN parts : Total(parts[i]) > k THEN "split-part-too-big"
  ELSE IF \E i \in DOMAIN parts : Total(parts[i]) = 0 THEN "split-part-empty"
  ELSE IF ~SameFlat(all, doc) THEN "split-not-the-same-receipts"
  ELSE IF ~(Bounds(NonEmpty(doc)) \subseteq Bounds(all)) THEN "split-groups-joined"
  ELSE ""

\* what came out of merging; k: receipts read at a time
MergeFault(docs, k, joining, out) ==
  LET all == NonEmpty(FlattenSeq(docs)) IN
  IF ~SameFlat(out, all) THEN "merge-not-the-same-receipts"
  ELSE IF joining THEN IF PlainDoc(out) = Join(all) THEN "" ELSE "merge-groups"
  ELSE IF ~(Bounds(all) \subseteq Bounds(out)) THEN "nomerge-groups-joined"
  ELSE IF (\A i \in DOMAIN docs : k > Total(docs[i])) /\ PlainDoc(out) # PlainDoc(all)
       THEN "nomerge-groups" ELSE ""

\* groups handed to an exporter in memory
ExportFault(gs, joining, out) ==
  IF ~SameFlat(out, gs) THEN "export-not-the-same-receipts"
  ELSE IF PlainDoc(out) # (IF joining THEN Join(gs) ELSE PlainDoc(gs)) THEN "export-groups"
  ELSE ""

\* all receipts of a DEP, without certificates
ListFault(gs, recs) ==
  IF recs # FlattenSeq([i \in DOMAIN gs |-> gs[i].recs]) THEN "convert-not-the-same-receipts" ELSE ""

CertsOf(gs) ==
  UNION {({g.cert} \cup {g.chain[i] : i \in DOMAIN g.chain}) \ {NoCert}
         : g \in {gs[i] : i \in DOMAIN gs}}

\* certificates of the same serial, which are filed under the same name
SameSerial(x, y) == {x, y} \in {{"A", "E"}, {"C", "F"}}

\* the certificates found; k: receipts read at a time
ExtractFault(doc, k, certs) ==
  LET ends == {g \in DOMAIN doc : /\ doc[g].recs # <<>>
                                  /\ ~(doc[g].late /\ (Before(doc, g) + Len(doc[g].recs)) % k = 0)}
      sure == CertsOf(NonEmpty([g \in DOMAIN doc |-> IF g \in ends THEN doc[g] ELSE [doc[g] EXCEPT !.recs = <<>>]]))
      want == CertsOf(NonEmpty(doc))
      Lost(s) == {m \in s \ certs : ~\E f \in certs : SameSerial(m, f)} IN
  IF ~(certs \subseteq CertsOf(doc)) THEN "extract-other-certificates"
  ELSE IF want \subseteq certs THEN ""
  ELSE IF Lost(sure) # {} THEN "extract-certificates-lost"
  ELSE IF Lost(want) = {} THEN "extract-same-serial"
  \* a chunk ended with the last receipt of a group whose certificates came after
  ELSE "extract-late-certificates"
=============================================================================
