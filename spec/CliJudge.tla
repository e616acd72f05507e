------------------------------ MODULE CliJudge ------------------------------
(***************************************************************************)
(* Judges recorded runs of the command line tools.  Case: [id, type, evs]; *)
(* events:                                                                 *)
(*  "verify"  state (option), ok, out: "empty" | "state" | "other", same:  *)
(*            the input files are as they were, has/fits: verdict known    *)
(*            from the plan, said: success was stated                      *)
(*  "misuse"  the same with words that make no sense                       *)
(*  "edit"    c: command as in StateTool, sure: its effect is specified,   *)
(*            ok, before, after: the file                                  *)
(*  "lines"   want: for each line whether the library accepts it, rep:     *)
(*            numbers of the lines reported, good, total: as stated, ok    *)
(*  "convert" want: lines expected on output, got, ok, bad: whether there  *)
(*            is an unusable line after them                               *)
(***************************************************************************)
EXTENDS StateTool, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e
vars == <<c, e>>
Case == Cases[c]
Ev == Case.evs[e]
Range(s) == {s[i] : i \in DOMAIN s}
Init == c \in 1..Len(Cases) /\ e = 1

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Check(cond, clause, exp, got) == IF cond THEN TRUE ELSE Report(clause, exp, got)

File(x) == [kind |-> x.kind, regs |-> x.regs, used |-> Range(x.used), type |-> x.type]

Verified ==
  /\ Check(Ev.has => (Ev.ok <=> Ev.fits), IF Ev.ok THEN "success" ELSE "failure", Ev.fits, Ev.ok)
  /\ Check(Ev.ok /\ Ev.state => Ev.out = "state", "no state", "state", Ev.out)
  /\ Check(~(Ev.ok /\ Ev.state) => Ev.out = "empty", "output", "empty", Ev.out)
  /\ Check(Ev.said <=> Ev.ok, "said", Ev.ok, Ev.said)
  /\ Check(Ev.same, "input files", TRUE, Ev.same)

\* a command line that cannot be understood: no state, no success is claimed
Misused ==
  /\ Check(~Ev.said, "said", FALSE, Ev.said)
  /\ Check(Ev.out = "empty", "output", "empty", Ev.out)
  /\ Check(Ev.same, "input files", TRUE, Ev.same)

Edited ==
  LET b == File(Ev.before)  a == File(Ev.after)
      x == [Ev.c EXCEPT !.ids = Range(@), !.src = File(@)]
      m == After(b, x, Case.type)
  IN IF Ev.c.cmd = "misuse" THEN Check(a = b /\ Ev.same, "misuse", b, a)
     ELSE /\ Check(~Ev.ok => a = b /\ Ev.same, "left", b, a)
          /\ IF ~Ev.sure THEN TRUE
             ELSE /\ Check(Ev.ok <=> Can(b, x), IF Ev.ok THEN "success" ELSE "failure", Can(b, x), Ev.ok)
                  /\ Check(Ev.ok /\ Can(b, x) => a = m \/ (b.kind = "ok" /\ a = After(b, x, b.type)),
                           "edit", m, a)
                  /\ Check(x.cmd = "show" /\ Ev.ok => Ev.shown, "shown", b, Ev.shown)

Lines ==
  LET fails == {i \in DOMAIN Ev.want : ~Ev.want[i]} IN
  /\ Check(Ev.ok, "lines-crash", TRUE, Ev.ok)
  /\ Check(Ev.ok => Range(Ev.rep) = fails /\ Len(Ev.rep) = Cardinality(fails), "reported", fails, Ev.rep)
  /\ Check(Ev.ok => Ev.total = Len(Ev.want) /\ Ev.good = Len(Ev.want) - Cardinality(fails),
           "counted", Ev.want, <<Ev.good, Ev.total>>)

Convert ==
  /\ Check(Ev.ok <=> ~Ev.bad, IF Ev.ok THEN "success" ELSE "failure", ~Ev.bad, Ev.ok)
  /\ Check(Ev.got = Ev.want, "converted", Ev.want, Ev.got)

Step == /\ e <= Len(Case.evs)
        /\ CASE Ev.t = "verify" -> Verified
             [] Ev.t = "misuse" -> Misused
             [] Ev.t = "edit" -> Edited
             [] Ev.t = "lines" -> Lines
             [] Ev.t = "convert" -> Convert
        /\ e' = e + 1 /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
=============================================================================
