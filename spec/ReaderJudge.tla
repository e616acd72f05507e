----------------------------- MODULE ReaderJudge -----------------------------
(***************************************************************************)
(* Judges recorded reads of DEP documents (ReaderContract), and rejections *)
(* of flawed documents and flawed saved states.                            *)
(* Case: [id, doc, flaws, evs]; events                                     *)
(*  read    kind, k, parts, ok, exc, chunks                                *)
(*  verify  kind, k, ok, exc, same: verification of a flawed document      *)
(*          (same: the state is as it was)                                 *)
(*  state   exc, ok, flaw: loading a saved state with the given flaw       *)
(***************************************************************************)
EXTENDS ReaderContract, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e
vars == <<c, e>>

Case == Cases[c]
Ev == Case.evs[e]
Flaws == Range(Case.flaws)

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Say(clause, exp, got) == IF clause = "" THEN TRUE ELSE Report(clause, exp, got)

StateErrors(w) ==
  CASE w = "none" -> {}
    [] w = "missing" -> {"MissingStateElementException"}
    [] w = "backend" -> {"MalformedStateElementException"}
    [] w = "type" -> {"MalformedStateElementException"}
    [] w = "root" -> {"MalformedStateException"}

StateFault(ev) ==
  IF ev.flaw = "none" THEN IF ev.ok THEN "" ELSE "state-refused"
  ELSE IF ev.ok THEN "flaw-accepted"
  ELSE IF "StateParseException" \notin Range(ev.exc) THEN "not-a-parse-error"
  ELSE IF Range(ev.exc) \cap StateErrors(ev.flaw) = {} THEN "wrong-parse-error"
  ELSE ""

Init == c \in 1..Len(Cases) /\ e = 1
Next ==
  /\ e <= Len(Case.evs)
  /\ CASE Ev.t = "read" /\ Flaws = {} ->
            Say(ReadFault(Case.doc, Ev.kind, Ev.k, Ev.parts, Ev.ok, Ev.chunks), Case.doc, Ev)
       [] Ev.t = "read" /\ Flaws # {} ->
            Say(FlawedFault(Case.doc, Ev.kind, Ev.k, Flaws, Ev.ok, Range(Ev.exc), FALSE), Flaws, Ev)
       [] Ev.t = "verify" ->
            /\ Say(FlawedFault(Case.doc, Ev.kind, Ev.k, Flaws, Ev.ok, Range(Ev.exc), TRUE), Flaws, Ev)
            /\ Say(IF Ev.ok \/ Ev.same THEN "" ELSE "state-changed", Flaws, Ev)
       [] Ev.t = "state" -> Say(StateFault(Ev), Ev.flaw, Ev)
  /\ e' = e + 1
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
