------------------------------ MODULE UsedJudge ------------------------------
(***************************************************************************)
(* Judges recorded operations on trackers of used IDs.  Case: [id, kind, n,*)
(* probes, evs]; event: [t, k, id, from, ok, dup, rec, trk]: dup: the exception  *)
(* is the one about duplicates, rec the ID it names; trk: for all         *)
(* trackers [rej: numbers of the probes rejected, odd: number of the probes*)
(* with another outcome or another ID named, ids: IDs in the saved form of *)
(* the default one].                                                       *)
(***************************************************************************)
EXTENDS UsedIds, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e, t
vars == <<c, e, t>>
Case == Cases[c]
Ev == Case.evs[e]
Range(s) == {s[i] : i \in DOMAIN s}

Init == c \in 1..Len(Cases) /\ e = 1 /\ t = [k \in 1..Cases[c].n |-> New(Cases[c].kind)]

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Check(cond, clause, exp, got) == IF cond THEN TRUE ELSE Report(clause, exp, got)

Seen(m) ==
  \A k \in 1..Case.n :
    LET o == Ev.trk[k]
        rej == {i \in DOMAIN Case.probes : ~Accepts(m[k], Case.probes[i])} IN
    /\ Check(o.odd = <<>>, "odd", <<>>, o.odd)
    /\ Check(Range(o.rej) = rej, IF Range(o.rej) \ rej # {} THEN "false-reject" ELSE "false-accept",
             rej \ Range(o.rej), Range(o.rej) \ rej)
    /\ IF m[k].kind = "U" THEN Check(Range(o.ids) = m[k].ids /\ Len(o.ids) = Cardinality(m[k].ids),
                                     "kept", m[k].ids, o.ids) ELSE TRUE

Step ==
  /\ e <= Len(Case.evs)
  /\ LET k == Ev.k
         os == [i \in DOMAIN Ev.from |-> t[Ev.from[i]]]
         clash == Ev.t = "merge" /\ ~CanMerge(t[k], os)
         m == CASE Ev.t = "add" -> [t EXCEPT ![k] = Add(@, Ev.id)]
                [] Ev.t = "merge" -> IF clash THEN t ELSE [t EXCEPT ![k] = Merge(@, os)]
                [] Ev.t = "copy" -> [t EXCEPT ![Ev.from[1]] = t[k]]
                [] Ev.t = "new" -> [t EXCEPT ![k] = New(Case.kind)]
                [] OTHER -> t
     IN /\ IF clash
           THEN /\ Check(~Ev.ok, "merged", Clashes(t[k], os), "ok")
                /\ Check(Ev.ok \/ (Ev.dup /\ Ev.rec \in Clashes(t[k], os)), "reason",
                         Clashes(t[k], os), Ev.rec)
           ELSE IF ~Ev.ok THEN Report("failed", Ev.t, Ev.rec)
           ELSE Seen(m)
        /\ t' = m
        /\ e' = IF Ev.ok /\ ~clash THEN e + 1 ELSE Len(Case.evs) + 1
  /\ UNCHANGED c

Spec == Init /\ [][Step]_vars
=============================================================================
