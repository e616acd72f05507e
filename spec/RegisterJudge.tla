--------------------------- MODULE RegisterJudge ---------------------------
(***************************************************************************)
(* Judges recorded requests to cash registers. Case: [id, env, recs, regs, *)
(* evs]; regs: the registers at the beginning, with ps, the index of the   *)
(* start receipt of the register before (0: none). Events:                 *)
(*  make     g: register; req: the request; dev: ok, failed, raises;       *)
(*           bad: why it cannot be met, or ""; done; x: the receipt made   *)
(*           or 0; same: the object returned states what the register      *)
(*           keeps; width: bytes of the stated counter (0: none)           *)
(*           after: [last, tc, size] of every register                     *)
(*  restart  g; after                                                      *)
(***************************************************************************)
EXTENDS RegisterCore, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e, G, S, used, on
vars == <<c, e, G, S, used, on>>

Case == Cases[c]
Ev == Case.evs[e]
R == Case.recs
Env == Case.env
Group == [cert |-> [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None], chain |-> <<>>]

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Say(clause, exp, got) == IF clause = "" THEN TRUE ELSE Report(clause, exp, got)

Init == /\ c \in 1..Len(Cases) /\ e = 1
        /\ G = Cases[c].regs
        /\ S = [i \in DOMAIN Cases[c].regs |-> BlankReg]
        /\ used = Range(Cases[c].used)
        /\ on = TRUE

g == G[Ev.g]
ps == g.ps
Seen(a) == [i \in DOMAIN a |-> [last |-> a[i].last, tc |-> a[i].tc, size |-> a[i].size]]
Kept(a) == Seen(a) = Seen(G)
Succ == [G EXCEPT ![Ev.g] = Advance(@, Ev.req, Ev.x)]
CanBe == Ev.bad = "" /\ Ev.dev # "raises" /\ Possible(g, Ev.req)

Fault ==
  IF Ev.t = "restart" THEN IF Kept(Ev.after) THEN "" ELSE "restart"
  ELSE IF ~CanBe
  THEN IF Ev.done THEN "impossible-receipt-made"
       ELSE IF ~Kept(Ev.after) THEN "failed-attempt-changed-register" ELSE ""
  ELSE IF ~Ev.done THEN "request-refused"
  ELSE LET d == DataFaults(R, g, Ev.req, Ev.dev, R[Ev.x]) IN
    IF d # {} THEN "receipt-" \o (CHOOSE f \in d : TRUE)
    ELSE IF ~Ev.same THEN "returned-receipt-differs"
    ELSE IF Ev.width # (IF Ev.req.kind = "STD" THEN g.size ELSE 0) THEN "counter-size"
    ELSE IF Seen(Ev.after) # Seen(Succ) THEN "register-afterwards"
    ELSE IF ~Allowed(Env, Group, R, S[Ev.g], ps, used, Ev.x) THEN "plan"
    ELSE IF Faults(Env, Group, R, S[Ev.g], ps, used, Ev.x) # {}
    THEN "rule-" \o (CHOOSE f \in Faults(Env, Group, R, S[Ev.g], ps, used, Ev.x) : TRUE)
    ELSE ""

Next ==
  /\ on /\ e <= Len(Case.evs)
  /\ LET f == Fault
         did == f = "" /\ Ev.t = "make" /\ Ev.done IN
     /\ Say(f, G, Ev)
     \* there is no use in going on after a fault
     /\ on' = (f = "")
     /\ G' = IF did THEN Succ ELSE G
     /\ S' = IF did THEN [S EXCEPT ![Ev.g] = Accept(Env, Group, R, @, Ev.x)] ELSE S
     /\ used' = IF did THEN used \cup {R[Ev.x].id} ELSE used
  /\ e' = e + 1
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
