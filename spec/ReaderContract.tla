--------------------------- MODULE ReaderContract ---------------------------
(***************************************************************************)
(* What reading a DEP document has to deliver, whichever reader is used.   *)
(*                                                                         *)
(* A document is a sequence of groups                                      *)
(*   [cert, chain, recs, late]                                             *)
(* where late says that the certificate or the chain stands after the      *)
(* receipts. A read delivers a sequence of chunks, each a sequence of      *)
(* group parts [recs, cert, chain].                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Readers == {"dict", "full", "file", "textfile", "stream", "certless"}
Incremental == {"file", "textfile", "stream", "certless"}

NoCert == ""

RECURSIVE FlatGroups(_)
FlatGroups(gs) ==
  IF gs = <<>> THEN <<>>
  ELSE [i \in DOMAIN Head(gs).recs |->
          [rec |-> Head(gs).recs[i], cert |-> Head(gs).cert, chain |-> Head(gs).chain]]
       \o FlatGroups(Tail(gs))

Flat(chunks) == FlatGroups(FlattenSeq(chunks))
Total(gs) == Len(FlatGroups(gs))
Size(chunk) == Total(chunk)

Before(doc, g) == Total(SubSeq(doc, 1, g - 1))

\* a chunk of size k ends inside group g, whose certificates are yet to come
MayMissCert(doc, k) ==
  /\ k > 0
  /\ \E g \in DOMAIN doc : /\ doc[g].late
                           /\ \E i \in DOMAIN doc[g].recs : (Before(doc, g) + i) % k = 0

SameOrNone(kind, got, want) ==
  /\ got.rec = want.rec
  /\ \/ got.cert = want.cert /\ got.chain = want.chain
     \/ /\ kind = "certless"
        /\ got.cert \in {want.cert, NoCert}
        /\ got.chain \in {want.chain, <<>>}

Matches(kind, got, want) ==
  /\ Len(got) = Len(want)
  /\ \A i \in DOMAIN got : SameOrNone(kind, got[i], want[i])

\* everything delivered so far is right, though there may be more
MatchesStart(kind, got, want) ==
  /\ Len(got) <= Len(want)
  /\ \A i \in DOMAIN got : SameOrNone(kind, got[i], want[i])

CeilDiv(a, b) == (a + b - 1) \div b

\* the number of chunks, where it is promised
ChunkCountOK(kind, doc, k, parts, n) ==
  IF k > 0 THEN TRUE
  ELSE IF kind \in Incremental THEN n = 1
  ELSE IF parts > 1 THEN n <= parts
  ELSE n = Cardinality({g \in DOMAIN doc : doc[g].recs # <<>>})

ChunksOK(chunks, k) ==
  \A i \in DOMAIN chunks : /\ Size(chunks[i]) > 0
                           /\ k > 0 => Size(chunks[i]) <= k

(* the clause of the contract a read breaks, or "" *)
ReadFault(doc, kind, k, parts, ok, chunks) ==
  LET want == FlatGroups(doc)
      got == Flat(chunks)
  IN  IF ~ChunksOK(chunks, k) THEN "chunk-size"
      ELSE IF ok THEN
        IF want = <<>> THEN "accepted-without-receipts"
        ELSE IF ~Matches(kind, got, want) THEN "not-the-same-receipts"
        ELSE IF ~ChunkCountOK(kind, doc, k, parts, Len(chunks)) THEN "chunk-count"
        ELSE ""
      ELSE IF want = <<>> THEN ""
      ELSE IF ~(kind = "stream" /\ MayMissCert(doc, k)) THEN "failed"
      ELSE IF ~MatchesStart(kind, got, want) THEN "not-the-same-receipts"
      ELSE ""

-----------------------------------------------------------------------------
(* Flaws of a document, and the errors that name them. A flaw is           *)
(*   [w |-> what, g |-> group or 0, e |-> element or ""]                   *)
(* what: "json" | "missing" | "dup" | "type" | "item" | "cert" | "empty"   *)

Sees(kind, flaw) == flaw.w = "dup" => kind \in Incremental

NamingErrors(flaw) ==
  CASE flaw.w = "json" -> {"DEPParseException"}
    [] flaw.w = "missing" -> {"MissingDEPElementException"}
    [] flaw.w = "dup" -> IF flaw.e = "root" THEN {"MalformedDEPException"}
                         ELSE {"DuplicateDEPElementException"}
    [] flaw.w \in {"type", "item", "empty"} -> {"MalformedDEPException", "MalformedCertificateException"}
    [] flaw.w = "cert" -> {"MalformedCertificateException"}

\* "Element Signaturzertifikat or Zertifizierungsstellen missing"
StreamGivesUp(kind, doc, k) ==
  IF kind = "stream" /\ k > 0 /\ \E g \in DOMAIN doc : doc[g].late
  THEN {"MalformedDEPException"} ELSE {}

FlawedErrors(kind, doc, k, flaws) ==
  UNION {NamingErrors(f) : f \in {x \in flaws : Sees(kind, x)}} \cup StreamGivesUp(kind, doc, k)

\* exc: the class of the error and its ancestors
\* what an in-memory reader makes of a repeated element is not defined, so
\* when such a document is verified other rules may be found broken first
FlawedFault(doc, kind, k, flaws, ok, exc, verifying) ==
  IF ~\E f \in flaws : Sees(kind, f) THEN ""
  ELSE IF ok THEN "flaw-accepted"
  ELSE IF verifying /\ \E f \in flaws : ~Sees(kind, f) THEN ""
  ELSE IF "DEPParseException" \notin exc THEN "not-a-parse-error"
  ELSE IF exc \cap FlawedErrors(kind, doc, k, flaws) = {} THEN "wrong-parse-error"
  ELSE ""
=============================================================================
