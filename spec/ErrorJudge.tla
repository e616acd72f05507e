----------------------------- MODULE ErrorJudge -----------------------------
(***************************************************************************)
(* Judges how failures were reported.  Events:                             *)
(*  "run"   idx, groups, exact, obs: a verification from the initial state *)
(*          of the case; obs: [ended, ok, exc, rec, text, same]. exact: in *)
(*          one package, so that the first fault has to be the one named   *)
(*          (but IDs used before are only noticed at its end);             *)
(*          same: the text the same exception has when no worker processes *)
(*          are involved, "-" if not comparable                            *)
(*  "odd"   want, obs: a verification of something unusual; want: verdicts *)
(*          that are right ("ok", an exception class; "any": either ok or  *)
(*          an exception of the library)                                   *)
(*  "transfer" before, after: an exception and what arrived elsewhere      *)
(***************************************************************************)
EXTENDS VerifyJudge

Flat(gs) ==    \* all receipts with the number of their group
  LET RECURSIVE F(_)
      F(i) == IF i > Len(gs) THEN <<>>
              ELSE [k \in DOMAIN gs[i].recs |-> [g |-> i, x |-> gs[i].recs[k]]] \o F(i + 1)
  IN F(1)

Plain(S) == {<<f, None>> : f \in S}
Xs(fl) == [k \in DOMAIN fl |-> fl[k].x]
Ok(x) == R[x].malf = <<>>

\* the first fault met by somebody who starts at position s in state st
RECURSIVE FirstFault(_, _, _, _, _, _)
FirstFault(gs, fl, s, st, ps, used) ==
  IF s > Len(fl) THEN {}
  ELSE LET f == Faults(Env, gs[fl[s].g], R, st, ps, used, fl[s].x) IN
       IF f # {} THEN {<<a, IF Ok(fl[s].x) THEN R[fl[s].x].id ELSE None>> : a \in f}
       ELSE FirstFault(gs, fl, s + 1, Accept(Env, gs[fl[s].g], R, st, fl[s].x), ps,
                       Note(Env, used, R[fl[s].x]))

\* what a package that starts at position s may report
PackageFaults(gs, fl, s, st, ps) ==
  LET before == SelectSeq(SubSeq(Xs(fl), 1, s - 1), Ok)
      \* if anything that matters is malformed, that is noticed instead
      bad == Env.hasKey /\ ~Env.keyOK
  IN FirstFault(gs, fl, s, Derive([Env EXCEPT !.hasKey = @ /\ ~bad], R, st, before), ps, {})
     \cup IF bad THEN Plain({"InvalidKeyException"}) ELSE {}

DupFaults(fl, used) ==
  {<<"DuplicateReceiptIdException", R[fl[k].x].id>> :
      k \in {k \in DOMAIN fl : Ok(fl[k].x) /\ (R[fl[k].x].id \in used
                 \/ \E q \in 1..(k - 1) : Ok(fl[q].x) /\ R[fl[q].x].id = R[fl[k].x].id)}}

Allowed(ev, st, ps) ==
  LET fl == Flat(ev.groups)
      first == IF fl = <<>> THEN Plain({"DEPParseException"})
               ELSE FirstFault(ev.groups, fl, 1, st, ps, cl.used)
  IN [first |-> first,
      more |-> Plain(LaterFaults(ev, 1)) \cup DupFaults(fl, cl.used)
               \cup UNION {PackageFaults(ev.groups, fl, s, st, ps) : s \in 1..Len(fl)},
      dups  |-> DupFaults(fl, cl.used)]

Matches(obs, P) == \E p \in P : p[1] \in Range(obs.exc) /\ (obs.rec = None \/ p[2] = None \/ p[2] = obs.rec)

HasReceipt(obs) == Range(obs.exc) \cap {"ReceiptException", "DEPReceiptException"} # {}

Reported(ev, A, certs) ==
  LET o == ev.obs IN
  IF ~o.ended THEN Report("hang", A.first, o)
  ELSE IF o.ok THEN Check(A.first \cup Plain(certs) = {}, "false-accept", A.first \cup Plain(certs), o)
  ELSE IF "RKSVException" \notin Range(o.exc) THEN Report("foreign", A.first, o)
  ELSE IF A.first \cup Plain(certs) = {} THEN Report("false-reject", {}, o)
  ELSE /\ IF Matches(o, A.first) \/ Matches(o, Plain(LaterFaults(ev, 1)))
             \/ ((~ev.exact \/ A.dups # {}) /\ Matches(o, A.more))
          THEN TRUE ELSE Report("wrong-reason", A, o)
       /\ Check(HasReceipt(o) => o.rec # None, "no-receipt", A.first, o)
       /\ Check(o.text # "", "no-text", A.first, o)
       /\ Check(o.same \in {None, o.text}, "text", o.same, o.text)

Run ==
  LET s == SelectFaults(cl, Ev.idx) IN
  IF s # {} THEN Reported(Ev, [first |-> Plain(s), more |-> {}, dups |-> {}], {})
  ELSE LET c2 == Selected(cl, Ev.idx)
           k == RegNo(cl, Ev.idx)
           certs == UNION {CertFaults(Env, Ev.groups[i]) \cup NoCertFaults(Ev.groups, i)
                            : i \in {i \in DOMAIN Ev.groups : Len(Ev.groups[i].recs) > 0}}
       IN Reported(Ev, Allowed(Ev, c2.regs[k], PrevStart(c2, k)), certs)

Odd ==
  LET o == Ev.obs IN
  IF ~o.ended THEN Report("hang", Ev.want, o)
  ELSE IF ~o.ok /\ "RKSVException" \notin Range(o.exc) THEN Report("foreign", Ev.want, o)
  ELSE IF "any" \in Range(Ev.want) THEN TRUE
  ELSE IF o.ok THEN Check("ok" \in Range(Ev.want), "false-accept", Ev.want, o)
  ELSE IF Range(o.exc) \cap Range(Ev.want) # {} THEN Check(o.text # "", "no-text", Ev.want, o)
  ELSE IF Range(Ev.want) = {"ok"} THEN Report("false-reject", Ev.want, o)
  ELSE Report("wrong-reason", Ev.want, o)

Transfer ==
  LET b == Ev.before IN
  \A k \in DOMAIN Ev.after :
    LET a == Ev.after[k] IN
    IF ~a.ok THEN Report("transfer:lost", b, a)
    ELSE /\ Check(a.exc = b.exc, "transfer:type", b, a)
         /\ Check(a.text = b.text, "transfer:text", b, a)
         /\ Check(a.rec = b.rec, "transfer:receipt", b, a)
         /\ Check(a.attrs = b.attrs, "transfer:attributes", b, a)

EStep == /\ e <= Len(Case.evs)
         /\ CASE Ev.kind = "run" -> Run
              [] Ev.kind = "odd" -> Odd
              [] Ev.kind = "transfer" -> Transfer
         /\ e' = e + 1
         /\ UNCHANGED <<c, phase, pos, cl, work>>

ESpec == Init /\ [][EStep]_vars
=============================================================================
