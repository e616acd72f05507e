------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* What a scenario specification means: which register makes each receipt, *)
(* what it is chained to, the counter it states, the DEP and group it is   *)
(* in, and how the DEPs refer to each other (by positions from 0).         *)
(*                                                                         *)
(* An instruction has new: "no", "dep" (a further DEP of a register),      *)
(* "cluster" (the first DEP of a new register), cont: the register (from   *)
(* 0) a further DEP belongs to or Absent for the current one, dev, kind,   *)
(* amt.                                                                    *)
(***************************************************************************)
EXTENDS RKSVCore

Absent == 999

NoScenario == [cur |-> 0, regs |-> <<>>, deps |-> <<[reg |-> 1, prev |-> Absent, cont |-> FALSE, groups |-> <<>>]>>,
               recs |-> <<>>]

Begins(S, i) == S.cur = 0 \/ i.new = "cluster"
RegOf(S, i) == IF Begins(S, i) THEN Len(S.regs) + 1
               ELSE IF i.new = "dep" /\ i.cont # Absent THEN i.cont + 1 ELSE S.cur

\* what the receipt is chained to: 0 for the register ID
PredOf(S, i) == IF Begins(S, i) THEN IF S.regs = <<>> THEN 0 ELSE S.regs[Len(S.regs)].start
                ELSE S.regs[RegOf(S, i)].last

InGroups(gs, dev, k) ==
  IF gs # <<>> /\ gs[Len(gs)].dev = dev
  THEN [gs EXCEPT ![Len(gs)].recs = Append(@, k)]
  ELSE Append(gs, [dev |-> dev, recs |-> <<k>>])

\* the scenario with one more instruction
Tell(S, i, grouped) ==
  LET k  == Len(S.recs) + 1
      r  == RegOf(S, i)
      ds == IF i.new = "no" THEN S.deps
            ELSE Append(S.deps, [reg |-> r, cont |-> i.new = "dep", groups |-> <<>>,
                                 prev |-> IF i.new = "dep" THEN S.regs[r].lastDep
                                          ELSE S.regs[Len(S.regs)].firstDep])
      n  == Len(ds)
      tc == IF Begins(S, i) THEN Zero ELSE S.regs[r].tc
      to == IF i.kind = "DUM" THEN tc ELSE Plus(tc, SumSeq(i.amt))
  IN [ cur  |-> r,
       regs |-> IF Begins(S, i)
                THEN Append(S.regs, [start |-> k, last |-> k, firstDep |-> n - 1, lastDep |-> n - 1, tc |-> to])
                ELSE [S.regs EXCEPT ![r].last = k, ![r].lastDep = n - 1, ![r].tc = to],
       deps |-> [ds EXCEPT ![n].groups = InGroups(@, IF grouped THEN i.dev ELSE Absent, k)],
       recs |-> Append(S.recs, [reg |-> r, pred |-> PredOf(S, i), tc |-> to]) ]

RECURSIVE Told(_, _, _)
Told(S, is, grouped) == IF is = <<>> THEN S ELSE Told(Tell(S, Head(is), grouped), Tail(is), grouped)

\* the register of each DEP, found by following the references as a verifier
\* does that gets the DEPs one after the other
RECURSIVE Followed(_, _, _)
Followed(ds, found, n) ==
  IF ds = <<>> THEN found
  ELSE LET d == Head(ds) IN
       IF d.cont THEN Followed(Tail(ds), Append(found, found[d.prev + 1]), n)
                 ELSE Followed(Tail(ds), Append(found, n + 1), n + 1)
=============================================================================
