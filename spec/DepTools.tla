------------------------------ MODULE DepTools ------------------------------
(***************************************************************************)
(* Splitting and merging of all small DEPs: several documents are read in  *)
(* chunks of k receipts, and the parts of groups are joined as they come.  *)
(***************************************************************************)
EXTENDS ToolsContract, TLC, Json

CONSTANTS CertChoices, MaxRecs, MaxGroups, MaxDocs, Chunks, Emit

CertOf(c) == CASE c \in {"none", "rootless"} -> NoCert [] c = "chain" -> "B" [] c = "twin" -> "E" [] OTHER -> "A"
ChainOf(c) == CASE c = "chain" -> <<"C">> [] c = "long" -> <<"B", "C">> [] c = "rootless" -> <<"C">>
                [] c = "turned" -> <<"C", "B">> [] c = "own" -> <<"A">> [] c = "twice" -> <<"B", "B">>
                [] c = "short" -> <<"B">> [] c = "twins" -> <<"B", "F">> [] OTHER -> <<>>

Shapes == [c : CertChoices, n : 0..MaxRecs]
Doc(d, sh) == [g \in DOMAIN sh |-> [cert |-> CertOf(sh[g].c), chain |-> ChainOf(sh[g].c),
                                    recs |-> [i \in 1..sh[g].n |-> d * 100 + g * 10 + i]]]

VARIABLES shapes, k, joining, src, out, status
vars == <<shapes, k, joining, src, out, status>>

Docs == [d \in DOMAIN shapes |-> Doc(d, shapes[d])]

RECURSIVE Pieces(_, _, _)
Pieces(doc, cur, acc) ==
  IF doc = <<>> THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE LET g == Head(doc)
           room == k - Size(cur)
           n == IF Len(g.recs) < room THEN Len(g.recs) ELSE room
           part == IF n = 0 THEN <<>> ELSE <<[g EXCEPT !.recs = SubSeq(@, 1, n)]>>
           rest == [g EXCEPT !.recs = SubSeq(@, n + 1, Len(@))]
           doc2 == IF rest.recs = <<>> THEN Tail(doc) ELSE <<rest>> \o Tail(doc)
       IN  IF Size(cur \o part) = k THEN Pieces(doc2, <<>>, Append(acc, cur \o part))
           ELSE Pieces(doc2, cur \o part, acc)
Split(doc) == Pieces(doc, <<>>, <<>>)

Init == /\ \E n \in 1..MaxDocs : shapes \in [1..n -> UNION {[1..m -> Shapes] : m \in 1..MaxGroups}]
        /\ k \in Chunks /\ joining \in BOOLEAN
        /\ src = FlattenSeq([d \in DOMAIN Docs |-> FlattenSeq(Split(Docs[d]))])
        /\ out = <<>> /\ status = "merging"

Pull ==
  /\ status = "merging" /\ src # <<>>
  /\ out' = IF joining THEN JoinInto(out, <<Head(src)>>) ELSE Append(out, Head(src))
  /\ src' = Tail(src)
  /\ UNCHANGED <<shapes, k, joining, status>>
Finish == /\ status = "merging" /\ src = <<>> /\ status' = "done"
          /\ UNCHANGED <<shapes, k, joining, src, out>>
Next == Pull \/ Finish
Spec == Init /\ [][Next]_vars

\* receipts are merged in order, none is lost on the way
RightSoFar == FlatGroups(out) \o FlatGroups(src) = FlatGroups(FlattenSeq(Docs))
Merged == status = "done" => MergeFault(Docs, k, joining, out) = ""
SplitOK == status = "done" => \A d \in DOMAIN Docs : SplitFault(Docs[d], k, Split(Docs[d])) = ""
\* merging what was split is merging what there was
MergeUndoesSplit == status = "done" =>
  \A d \in DOMAIN Docs : MergeFault(Split(Docs[d]), k, TRUE, Join(NonEmpty(Docs[d]))) = ""
\* merging twice changes nothing
Idempotent == (status = "done" /\ joining) => Join(out) = out

Plan == (Emit /\ status = "done") =>
          PrintT("PLAN " \o ToJson([docs |-> shapes, k |-> k, join |-> joining]))
=============================================================================
