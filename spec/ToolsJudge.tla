----------------------------- MODULE ToolsJudge -----------------------------
(***************************************************************************)
(* Judges recorded runs of the tools that split, merge, export and convert *)
(* DEPs (ToolsContract). Case: [id, docs, evs]; events                     *)
(*  split   d, k, pipe, ok, parts document d split into parts              *)
(*  merge   k, join, ok, out      all documents merged                     *)
(*  remerge d, k, ok, out         the parts of a split of d merged again   *)
(*  export  join, ok, out         all groups given to an exporter          *)
(*  list    d, ok, recs           d converted to CSV                       *)
(*  csv     ok, recs              all groups given to the CSV exporter     *)
(*  back    d, ok, out            the receipts of d converted from CSV     *)
(*  certs   d, k, ok, certs       certificates taken out of d              *)
(*  stream  want, got             a behaviour of DepStream replayed        *)
(***************************************************************************)
EXTENDS ToolsContract, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e
vars == <<c, e>>

Case == Cases[c]
Ev == Case.evs[e]

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Say(clause, exp, got) == IF clause = "" THEN TRUE ELSE Report(clause, exp, got)

Big == 1000000
K == IF Ev.k = 0 THEN Big ELSE Ev.k
D == Case.docs[Ev.d]
All == FlattenSeq(Case.docs)

\* an empty DEP cannot be read
Readable(doc) == Total(doc) > 0

Fault ==
  CASE Ev.t = "split" -> IF ~Readable(D) THEN IF Ev.ok THEN "split-of-nothing" ELSE ""
                         ELSE IF ~Ev.ok THEN IF Ev.pipe /\ MayMissCert(D, K) THEN "" ELSE "split-failed"
                         ELSE SplitFault(D, K, Ev.parts)
    [] Ev.t = "merge" -> IF \E i \in DOMAIN Case.docs : ~Readable(Case.docs[i]) THEN IF Ev.ok THEN "merge-of-nothing" ELSE ""
                         ELSE IF ~Ev.ok THEN "merge-failed" ELSE MergeFault(Case.docs, K, Ev.join, Ev.out)
    [] Ev.t = "remerge" -> IF ~Readable(D) THEN ""
                           ELSE IF ~Ev.ok THEN "merge-failed" ELSE MergeFault(<<D>>, K, TRUE, Ev.out)
    [] Ev.t = "export" -> IF ~Ev.ok THEN "export-failed" ELSE ExportFault(All, Ev.join, Ev.out)
    [] Ev.t = "list" -> IF ~Readable(D) THEN IF Ev.ok THEN "list-of-nothing" ELSE ""
                        ELSE IF ~Ev.ok THEN "convert-failed" ELSE ListFault(D, Ev.recs)
    [] Ev.t = "csv" -> IF ~Ev.ok THEN "export-failed" ELSE ListFault(All, Ev.recs)
    [] Ev.t = "back" -> IF ~Ev.ok THEN "convert-failed"
                        ELSE IF \E i \in DOMAIN Ev.out : Ev.out[i].cert # NoCert \/ Ev.out[i].chain # <<>> \/ Len(Ev.out) # 1
                        THEN "convert-groups" ELSE ListFault(D, FlattenSeq([i \in DOMAIN Ev.out |-> Ev.out[i].recs]))
    [] Ev.t = "certs" -> IF ~Readable(D) THEN IF Ev.ok THEN "certs-of-nothing" ELSE ""
                         ELSE IF ~Ev.ok THEN "extract-failed"
                         ELSE ExtractFault(D, K, {Ev.certs[i] : i \in DOMAIN Ev.certs})
    [] Ev.t = "stream" -> IF Ev.want = Ev.got THEN "" ELSE "stream"

Init == c \in 1..Len(Cases) /\ e = 1
Next ==
  /\ e <= Len(Case.evs)
  /\ Say(Fault, Case.docs, Ev)
  /\ e' = e + 1
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
