----------------------------- MODULE FormJudge ------------------------------
(***************************************************************************)
(* Judges recorded reading, writing and hashing of receipt texts.          *)
(* Case: [id, evs], events on one receipt at a time:                       *)
(*  read   rep, text, ok, exc, got, expect   a text was read; if accepted, *)
(*         got is what the receipt object says. expect: "ok"/"bad"/"" what *)
(*         the plan says; sound: check the specification itself, too       *)
(*  write  rep, ok, text        the object read last, written again        *)
(*  hash   qr, sha, out         its URL hash; sha: first bytes of the      *)
(*         SHA-256 of the text qr                                          *)
(***************************************************************************)
EXTENDS ReceiptForm, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e, v
vars == <<c, e, v>>

Case == Cases[c]
Ev == Case.evs[e]
ToSet2(s) == {s[i] : i \in DOMAIN s}

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Check(cond, clause, exp, got) == IF cond THEN TRUE ELSE Report(clause, exp, got)

None == [alg |-> <<>>]

\* what the object says against what the text states
Object(g, w) ==
  /\ \A k \in {"alg", "zda", "reg", "id", "ts", "serial"} :
        Check(g[k] = w[k], "field:" \o k, w[k], g[k])
  /\ Check(g.sums = w.sums, "field:sums", w.sums, g.sums)
  /\ Check(g.ctr = B64Enc(w.ctr), "field:ctr", w.ctr, g.ctr)
  /\ Check(g.chain = B64Enc(w.chain), "field:chain", w.chain, g.chain)
  /\ Check(g.sig = UrlEnc(w.sig), "field:sig", w.sig, g.sig)
  /\ Check(g.header = Header, "field:header", Header, g.header)
  /\ Check(g.time = w.ts, "field:time", w.ts, g.time)
  /\ \A i \in 1..5 : Check(Len(w.sums[i]) > 15 \/ g.amounts[i] = w.sums[i],
                           "field:amount", w.sums[i], g.amounts[i])
  /\ Check(g.dummy = (KindOf(w) = "DUM"), "field:dummy", w.ctr, g.dummy)
  /\ Check(g.reversal = (KindOf(w) = "REV"), "field:reversal", w.ctr, g.reversal)
  /\ Check(g.failed = Failed(w), "field:failed", w.sig, g.failed)
  /\ Check(g.null = NullTurnover(w), "field:null", w.sums, g.null)

\* the specification itself: writing what was read and reading it again
Sound(w) ==
  \A rep \in Reps :
    LET r == Read(rep, Write(rep, w))
        unfit == rep = "csv" /\ \E k \in {"reg", "id"} : 59 \in ToSet2(w[k]) \/ Strip(w[k]) # w[k]
    IN Check(unfit \/ (r.faults = {} /\ r.val = w), "spec", w, r)

ReadEv ==
  LET r == Read(Ev.rep, Ev.text)
      sp == (r.faults = {}) IN
  /\ IF Ev.expect = "" THEN TRUE
     ELSE Check((Ev.expect = "ok") = sp, "plan", Ev.expect, r.faults)
  /\ IF sp
     THEN /\ IF Ev.sound THEN Sound(r.val) ELSE TRUE
          /\ IF Ev.ok THEN Object(Ev.got, r.val)
             ELSE Report("refused", {}, Ev.exc)
     ELSE IF Ev.ok THEN Report("accepted", r.faults, <<>>)
     ELSE IF "ReceiptException" \notin ToSet2(Ev.exc) THEN Report("not-a-receipt-error", r.faults, Ev.exc)
     ELSE Check(ToSet2(Ev.exc) \cap r.faults # {}, "wrong-error", r.faults, Ev.exc)
  /\ v' = IF sp THEN r.val ELSE None
  /\ e' = IF sp = Ev.ok THEN e + 1 ELSE Len(Case.evs) + 1

WriteEv ==
  /\ Check(Ev.ok, "write-failed", Ev.rep, Ev.exc)
  /\ IF Ev.ok THEN Check(Ev.text = Write(Ev.rep, v), "written", Write(Ev.rep, v), Ev.text) ELSE TRUE
  /\ v' = v
  /\ e' = e + 1

HashEv ==
  /\ Check(Ev.qr = Write("qr", v), "hash-input", Write("qr", v), Ev.qr)
  /\ Check(Ev.out = UrlEnc(SubSeq(Ev.sha, 1, 8)), "hash", Ev.sha, Ev.out)
  /\ v' = v
  /\ e' = e + 1

Init == c \in 1..Len(Cases) /\ e = 1 /\ v = None
Next == /\ e <= Len(Case.evs)
        /\ CASE Ev.t = "read" -> ReadEv [] Ev.t = "write" -> WriteEv [] Ev.t = "hash" -> HashEv
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
