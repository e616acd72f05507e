---------------------------- MODULE VerifyJudge ----------------------------
(***************************************************************************)
(* Trace validation.  Every case is a recorded history of calls into the   *)
(* implementation on one cluster state; every receipt of every call is one *)
(* transition of the specification.  The verdict is total: a difference    *)
(* between what was observed and what RKSVCore allows is printed as an MM  *)
(* record naming the case, the event and the clause, and validation goes   *)
(* on with the next case.                                                  *)
(*                                                                         *)
(* Case: [id, env, recs, init, evs]; event kinds:                          *)
(*  "verify"  idx, groups, obs, alts    verification of a DEP              *)
(*  "update"  idx, groups, obs          state update without verification  *)
(*  "arb"     x, obs                    state from an arbitrary receipt    *)
(*  "reload"  obs                       state saved and loaded again       *)
(*  "made"    asked, n, done            a generator made n receipts        *)
(*  "judge"   idx, groups               receipts made by the generator:    *)
(*                                      must satisfy all rules             *)
(* obs: [ok, exc, rec, has, st]: verdict, exception class names (MRO), the *)
(* receipt it names, and the cluster state observed afterwards.            *)
(***************************************************************************)
EXTENDS RKSVCore, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e, phase, pos, cl, work
vars == <<c, e, phase, pos, cl, work>>

Case == Cases[c]
Ev == Case.evs[e]
R == Case.recs
Env == Case.env

ToState(s) == [regs |-> s.regs, used |-> Range(s.used)]

NoWork == [st |-> BlankReg, used |-> {}, n |-> 0]

Init == /\ c \in 1..Len(Cases)
        /\ e = 1 /\ phase = "idle" /\ pos = <<1, 1>>
        /\ cl = ToState(Cases[c].init)
        /\ work = NoWork

----------------------------------------------------------------------------
(* Reporting *)

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause,
                          exp |-> exp, got |-> got]))

Check(cond, clause, exp, got) == IF cond THEN TRUE ELSE Report(clause, exp, got)

(* the parts of the state that differ from the expected one *)
RegDiff(a, b) ==   \* a expected, b observed
  (IF a.start # b.start THEN {"start"} ELSE {})
  \cup (IF a.last # b.last THEN {"last"} ELSE {})
  \cup (IF a.tc # b.tc THEN {"tc"} ELSE {})
  \cup (IF a.need # b.need THEN {"need"} ELSE {})
  \cup (IF a.next # b.next THEN {"next"} ELSE {})

StateDiff(m, o, n) ==   \* n: the register worked on, 0 for none
  IF Len(m.regs) # Len(o.regs) THEN {"regcount"}
  ELSE (IF n # 0 THEN RegDiff(m.regs[n], o.regs[n]) ELSE {})
       \cup (IF \E k \in DOMAIN m.regs : k # n /\ m.regs[k] # o.regs[k]
             THEN {"otherreg"} ELSE {})
       \cup (IF m.used # o.used THEN {"used"} ELSE {})

CompareState(m, obs, n) ==
  IF ~obs.has THEN TRUE
  ELSE LET o == ToState(obs.st)
           D == StateDiff(m, o, n)
       IN  \A d \in D : Report("state:" \o d, m, obs.st)

\* the same DEP verified from the same state in other ways
CompareAlts(ev, f) ==
  \A k \in DOMAIN ev.alts :
    LET a == ev.alts[k] IN
    IF a.ok /\ f # {} THEN Report("alt-accept", f, a)
    ELSE IF ~a.ok /\ f = {} THEN Report("alt-reject", {}, a)
    ELSE IF ~a.ok /\ "RKSVException" \notin Range(a.exc) THEN Report("alt-crash", f, a)
    ELSE IF a.ok /\ ~(a.has /\ ev.obs.has) THEN Report("alt-state:unreadable", {}, a)
    ELSE IF a.ok
    THEN LET m == ToState(ev.obs.st)  o == ToState(a.st)
             n == RegNo(cl, ev.idx)
             D == StateDiff(m, o, IF n \in 1..Len(m.regs) THEN n ELSE 0) IN
         IF ~ev.obs.ok THEN TRUE
         ELSE \A d \in D : Report("alt-state:" \o d, ev.obs.st, a)
    ELSE TRUE

(* after a rejection: everything recorded is as before, a blank new slot   *)
(* may remain                                                              *)
AfterReject(ev) ==
  IF ~ev.obs.has THEN cl
  ELSE LET o == ToState(ev.obs.st) IN
       IF o = cl THEN cl
       ELSE IF o = Grown(cl) /\ IsNew(cl, ev.idx) THEN Grown(cl) ELSE cl

----------------------------------------------------------------------------
(* Verdict on a verify call: f is the set of faults of the first faulty    *)
(* position (empty: acceptable), later are faults that may be noticed      *)
(* early because they do not depend on the history.                        *)

LaterFaults(ev, gi) ==
  UNION {CertFaults(Env, ev.groups[i]) \cup NoCertFaults(ev.groups, i)
          : i \in {k \in DOMAIN ev.groups : k >= gi}}
  \cup UNION {Range(R[x].malf) : x \in UNION {Range(ev.groups[i].recs)
          : i \in {k \in DOMAIN ev.groups : k >= gi}}}

Named(ev, at) == ev.obs.rec = None \/ at = 0 \/ ev.obs.rec = R[at].id

Verdict(ev, f, gi, at) ==
  /\ CompareAlts(ev, f)
  /\ IF f = {}
     THEN Check(ev.obs.ok, "false-reject", {}, ev.obs.exc)
     ELSE IF ev.obs.ok THEN Report("false-accept", f, <<>>)
     ELSE IF Range(ev.obs.exc) \cap f # {}
          THEN Check(Named(ev, at) \/ R[at].malf # <<>>, "wrong-receipt", f, ev.obs)
     ELSE Check(Range(ev.obs.exc) \cap LaterFaults(ev, gi) # {},
                "wrong-reason", f, ev.obs.exc)
  \* what a DEP made by the library has to be: faultless, or with one of these
  /\ IF "must" \notin DOMAIN ev THEN TRUE
     ELSE Check(IF ev.must = <<>> THEN f = {} ELSE Range(ev.must) \cap f # {}, "rules", ev.must, f)
  /\ IF "plan" \notin DOMAIN ev THEN TRUE
     ELSE Check(ev.plan.ok = (f = {}) /\ (ev.plan.ok \/ Range(ev.plan.faults) = f),
                "plan", ev.plan, f)

Conclude(ev, f, gi, at, m) ==
  /\ Verdict(ev, f, gi, at)
  /\ LET after == IF f = {} THEN m ELSE AfterReject(ev) IN
     /\ IF ev.obs.ok = (f = {})
        THEN CompareState(after, ev.obs, IF f = {} THEN work.n ELSE 0)
        ELSE TRUE
     /\ cl' = after
     \* a wrong verdict ends the case: nothing after it is comparable
     /\ e' = IF ev.obs.ok = (f = {}) THEN e + 1 ELSE Len(Case.evs) + 1
  /\ phase' = "idle" /\ pos' = <<1, 1>> /\ work' = NoWork /\ UNCHANGED c

BeginVerify ==
  /\ phase = "idle" /\ e <= Len(Case.evs) /\ Ev.kind \in {"verify", "judge"}
  /\ LET f == SelectFaults(cl, Ev.idx) IN
     IF f # {} THEN Conclude(Ev, f, 1, 0, cl)
     ELSE LET s == Selected(cl, Ev.idx)
              n == RegNo(cl, Ev.idx) IN
          /\ phase' = "run" /\ pos' = <<1, 1>>
          /\ work' = [st |-> s.regs[n], used |-> s.used, n |-> n]
          /\ UNCHANGED <<c, e, cl>>

NoReceipts(ev) == \A i \in DOMAIN ev.groups : Len(ev.groups[i].recs) = 0

StepVerify ==
  /\ phase = "run"
  /\ LET gi == pos[1]  xi == pos[2]
         s  == Selected(cl, Ev.idx)
         ps == PrevStart(s, work.n)
     IN
     IF gi > Len(Ev.groups)
     THEN IF NoReceipts(Ev) THEN Conclude(Ev, {"DEPParseException"}, 1, 0, s)
          ELSE Conclude(Ev, {}, gi, 0,
                 [regs |-> [s.regs EXCEPT ![work.n] = work.st], used |-> work.used])
     ELSE LET g == Ev.groups[gi] IN
          IF xi > Len(g.recs)
          THEN /\ pos' = <<gi + 1, 1>> /\ UNCHANGED <<c, e, phase, cl, work>>
          ELSE LET gf == IF xi = 1 THEN CertFaults(Env, g) \cup NoCertFaults(Ev.groups, gi) ELSE {}
                   x  == g.recs[xi]
                   f  == IF gf # {} THEN gf
                         ELSE Faults(Env, g, R, work.st, ps, work.used, x)
               IN IF f # {} THEN Conclude(Ev, f, gi, IF gf # {} THEN 0 ELSE x, s)
                  ELSE /\ work' = [work EXCEPT !.st = Accept(Env, g, R, work.st, x),
                                               !.used = Note(Env, @, R[x])]
                       /\ pos' = <<gi, xi + 1>>
                       /\ UNCHANGED <<c, e, phase, cl>>

----------------------------------------------------------------------------
(* State updates without verification.                                     *)

RECURSIVE DeriveGroups(_, _)
DeriveGroups(st, gs) == IF gs = <<>> THEN st
                        ELSE DeriveGroups(Derive(Env, R, st, Head(gs).recs), Tail(gs))

Other ==
  /\ phase = "idle" /\ e <= Len(Case.evs)
  /\ \/ /\ Ev.kind = "update"
        /\ LET n == Ev.idx + 1
               m == [cl EXCEPT !.regs[n] = DeriveGroups(@, Ev.groups)] IN
           /\ Check(Ev.obs.ok, "update-crash", {}, Ev.obs.exc)
           /\ CompareState(m, Ev.obs, n)
           /\ cl' = m
     \/ /\ Ev.kind = "reload"
        /\ Check(Ev.obs.ok, "reload-crash", {}, Ev.obs.exc)
        /\ IF Ev.obs.ok THEN CompareState(cl, Ev.obs, IF Len(cl.regs) > 0 THEN 1 ELSE 0) ELSE TRUE
        /\ cl' = cl
     \/ /\ Ev.kind = "grow"      \* a blank register added
        /\ Check(Ev.obs.ok = CanAdd(cl), "grow", CanAdd(cl), Ev.obs.exc)
        /\ CompareState(IF CanAdd(cl) THEN Grown(cl) ELSE cl, Ev.obs, 0)
        /\ cl' = IF CanAdd(cl) THEN Grown(cl) ELSE cl
     \/ /\ Ev.kind = "conf"      \* a chaining value was configured
        /\ LET s == IF Ev.new THEN Grown(cl) ELSE cl
               m == [s EXCEPT !.regs[Len(s.regs)].next = Ev.next] IN
           /\ CompareState(m, Ev.obs, Len(m.regs))
           /\ cl' = m
     \/ /\ Ev.kind = "made"      \* a generator was asked for so many receipts
        /\ Check(Ev.done, "made", Ev.asked, Ev.n)
        /\ Check(Ev.n = Ev.asked, "made", Ev.asked, Ev.n)
        /\ cl' = cl
     \/ /\ Ev.kind = "ids"       \* the used IDs were set by the harness
        /\ cl' = [cl EXCEPT !.used = ToState(Ev.obs.st).used]
     \/ /\ Ev.kind = "arb"
        \* the state from which the history continues at receipt x: chained
        \* to whatever x is chained to, with the counter before x
        /\ LET r == R[Ev.x]
               o == ToState(Ev.obs.st)
               tc == IF Ev.start \/ ~Env.hasKey \/ r.kind # "STD" THEN Zero
                     ELSE Minus(r.dec, Turnover(r)) IN
           /\ IF Ev.obs.ok
              THEN /\ Check(Len(o.regs) = 1, "arb:regcount", 1, Len(o.regs))
                   /\ LET s == o.regs[1] IN
                      /\ Check(s.start = 0, "arb:start", 0, s.start)
                      /\ Check(s.next = r.chain, "arb:next", r.chain, s.next)
                      /\ Check(s.tc = tc, "arb:tc", tc, s.tc)
                      /\ Check(~s.need, "arb:need", FALSE, s.need)
                      /\ Check(IF Ev.start THEN s.last = 0
                               ELSE s.last > 0 /\ R[s.last].reg = r.reg
                                    /\ Closed(R[s.last]) = Closed(r)
                                    /\ ~R[s.last].failed /\ R[s.last].ts <= r.ts,
                               "arb:last", r, s.last)
                   /\ Check(o.used = {}, "arb:used", {}, o.used)
              ELSE Report("arb-crash", {}, Ev.obs.exc)
           /\ cl' = IF Ev.obs.ok THEN o ELSE cl
  /\ e' = IF Ev.obs.ok THEN e + 1 ELSE Len(Case.evs) + 1
  /\ UNCHANGED <<c, phase, pos, work>>

Next == BeginVerify \/ StepVerify \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
