----------------------------- MODULE CheckJudge -----------------------------
(***************************************************************************)
(* Judges checks of single receipts, URL hashes and lookups at a receipt   *)
(* host, from the texts alone (ReceiptForm) and the design of key          *)
(* selection (RKSVCore).                                                   *)
(* Case: [id, env, grp, evs]; events                                       *)
(*  check  runs: <<[rep, text, ok, exc]>>, one receipt in several          *)
(*         representations; signer: the key that signed exactly the JWS    *)
(*         with this content, or "-"; asHex, asDec, serial                 *)
(*  url    url, hasHash, run, sha, signer...: a receipt fetched from a     *)
(*         URL and checked together with the hash in it                    *)
(*  hash   text (qr), sha, has, given, ok, exc: URL hash check             *)
(*  host   shas: <<[text, sha]>>, asks: <<[hash, ok, code]>>               *)
(***************************************************************************)
EXTENDS RKSVCore, Json, IOUtils, TLC

F == INSTANCE ReceiptForm

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e
vars == <<c, e>>

Case == Cases[c]
Ev == Case.evs[e]

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Check(cond, clause, exp, got) == IF cond THEN TRUE ELSE Report(clause, exp, got)

----------------------------------------------------------------------------
(* A single receipt: w is what its text states, x the facts about keys     *)

Facts(w, x) == [zda |-> IF w.zda = F!AT0 THEN "AT0" ELSE "AT1", serial |-> x.serial,
                asHex |-> x.asHex, asDec |-> x.asDec, failed |-> F!Failed(w), signer |-> x.signer]

SingleFaults(w, x) ==
  LET r == Facts(w, x)
      s == SigFaults(Case.env, Case.grp, r) IN
  IF ~r.failed THEN s
  ELSE s \cup {IF F!KindOf(w) = "STD" /\ F!NullTurnover(w) THEN "UnsignedNullReceiptException"
               ELSE "SignatureSystemFailedException"}

TextFaults(rep, text, x) ==
  LET r == F!Read(rep, text) IN
  IF r.faults # {} THEN r.faults ELSE SingleFaults(r.val, x)

Verdict(f, run, what) ==
  IF f = {} THEN Check(run.ok, what \o "refused", f, run.exc)
  ELSE IF run.ok THEN Report(what \o "accepted", f, <<>>)
  ELSE IF "ReceiptException" \notin Range(run.exc) THEN Report(what \o "not-a-receipt-error", f, run.exc)
  ELSE Check(Range(run.exc) \cap f # {}, what \o "wrong-error", f, run.exc)

First1(s) == IF s = <<>> THEN "" ELSE s[1]

CheckEv ==
  /\ \A i \in DOMAIN Ev.runs :
       Verdict(TextFaults(Ev.runs[i].rep, Ev.runs[i].text, Ev), Ev.runs[i], "")
  /\ LET f == TextFaults(Ev.runs[1].rep, Ev.runs[1].text, Ev) IN
     \A i \in DOMAIN Ev.runs :
       LET a == Ev.runs[1]  b == Ev.runs[i] IN
       Check(a.ok = b.ok /\ (First1(a.exc) = First1(b.exc)
                             \/ (F!Read(b.rep, b.text).faults # {} /\ Cardinality(f) > 1)),
             "differs", a.exc, <<b.rep, b.exc>>)

\* the hash of a URL: its anchor, else the last run of exactly 11 characters
UrlChar(ch) == F!AlNum(ch) \/ ch \in {45, 95}
UrlRuns(u) ==
  {i \in DOMAIN u : /\ i + 10 <= Len(u)
                    /\ \A j \in i..(i + 10) : UrlChar(u[j])
                    /\ i > 1 => ~UrlChar(u[i - 1])
                    /\ i + 11 <= Len(u) => ~UrlChar(u[i + 11])}
UrlHash(u) ==   \* <<>> or <<hash>>
  LET s == F!Split(u, 35) IN
  IF Len(s) > 1 THEN <<s[2]>>
  ELSE IF UrlRuns(u) = {} THEN <<>>
  ELSE LET k == CHOOSE i \in UrlRuns(u) : \A j \in UrlRuns(u) : j <= i
       IN <<SubSeq(u, k, k + 10)>>

HashOf(sha) == F!UrlEnc(SubSeq(sha, 1, 8))

\* the harness hashed exactly the QR text of this content
Hashed(rep, text, qr) ==
  LET r == F!Read(rep, text) IN
  Check(r.faults # {} \/ qr = F!Write("qr", r.val), "plan", text, qr)

UrlEv ==
  /\ Hashed("qr", Ev.run.text, Ev.qr)
  /\ LET f == TextFaults("qr", Ev.run.text, Ev)
         h == UrlHash(Ev.url) IN
     /\ Check(Ev.found = h, "url-hash", h, Ev.found)
     /\ Verdict(IF f # {} THEN f
                ELSE IF h = <<HashOf(Ev.sha)>> THEN {} ELSE {"InvalidURLHashException"},
                Ev.run, "url-")

HashEv ==
  /\ Hashed("qr", Ev.text, Ev.text)
  /\ LET f == IF Ev.has /\ Ev.given = HashOf(Ev.sha) THEN {} ELSE {"InvalidURLHashException"}
     IN Verdict(f, Ev, "hash-")

HostEv ==
  /\ \A i \in DOMAIN Ev.shas : Hashed("qr", Ev.shas[i].text, Ev.shas[i].text)
  /\ \A i \in DOMAIN Ev.asks :
       LET a == Ev.asks[i]
           S == {k \in DOMAIN Ev.shas : HashOf(Ev.shas[k].sha) = a.hash} IN
       IF S = {} THEN Check(~a.ok, "host-invented", a.hash, a.code)
       ELSE Check(a.ok /\ \E k \in S : a.code = Ev.shas[k].text, "host-lost", a.hash, a.code)

Init == c \in 1..Len(Cases) /\ e = 1
Next == /\ e <= Len(Case.evs)
        /\ CASE Ev.t = "check" -> CheckEv
             [] Ev.t = "url" -> UrlEv
             [] Ev.t = "hash" -> HashEv
             [] Ev.t = "host" -> HostEv
        /\ e' = e + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
