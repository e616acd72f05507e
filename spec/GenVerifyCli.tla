---------------------------- MODULE GenVerifyCli ----------------------------
(***************************************************************************)
(* A cluster verified DEP by DEP with verify.py: register r (from 1) made  *)
(* the DEPs <<r, 1>>, ..., <<r, Parts>>.  The state file is prog: for each *)
(* register in it, how many of its DEPs are verified.                      *)
(***************************************************************************)
EXTENDS VerifyOptions, Json, FiniteSets

CONSTANTS Registers, Parts, Depth, Pars, Chunks, Emit

VARIABLES prog, plan
vars == <<prog, plan>>

Options == [state: BOOLEAN, sel: {"", "continue"}, reg: {0}, par: Pars, chunk: Chunks, json: BOOLEAN]
           \cup [state: BOOLEAN, sel: {"n"}, reg: 0..Registers, par: Pars, chunk: Chunks, json: BOOLEAN]
Deps == [r: 1..Registers, p: 1..Parts, good: BOOLEAN]

Read(o) == IF o.state THEN prog ELSE <<>>
Fits(o, d) == LET s == Read(o)  t == Target(o, Len(s)) IN
              /\ d.good
              /\ t >= 0 /\ t <= Len(s)
              /\ d.r = t + 1
              /\ d.p = IF t = Len(s) THEN 1 ELSE s[t + 1] + 1

Init == prog = <<>> /\ plan = <<>>

Out(o, d) == IF ~Fits(o, d) THEN <<>>
             ELSE LET s == Read(o)  t == Target(o, Len(s)) IN
                  IF t = Len(s) THEN Append(s, 1) ELSE [s EXCEPT ![t + 1] = @ + 1]

Plain(o) == o.par = Absent /\ o.chunk = Absent /\ ~o.json

Run == \E o \in Options, d \in Deps :
  /\ Len(plan) < Depth
  \* any run on every state, and on with what is not special on the way there
  /\ IF plan = <<>> THEN TRUE ELSE plan[Len(plan)].ok /\ plan[Len(plan)].o.state /\ Plain(plan[Len(plan)].o)
  /\ prog' = IF o.state /\ Fits(o, d) THEN Out(o, d) ELSE prog
  /\ plan' = Append(plan, [o |-> o, words |-> Render(o), d |-> d, ok |-> Fits(o, d),
                           target |-> Target(o, Len(Read(o)))])
  /\ IF Emit THEN PrintT("PLAN " \o ToJson([runs |-> plan'])) ELSE TRUE

Next == Run
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Last == plan[Len(plan)]
\* an accepted run advances exactly one register by one DEP, the others stay
OneStep == [][LET l == plan'[Len(plan')] IN
              IF l.ok /\ l.o.state
              THEN /\ Len(prog') \in {Len(prog), Len(prog) + 1}
                   /\ Cardinality({k \in 1..Len(prog') : k > Len(prog) \/ prog'[k] # prog[k]}) = 1
                   /\ prog'[l.d.r] = l.d.p
              ELSE prog' = prog]_vars
\* neither parallelism nor chunk size nor "json" matter for the verdict
OptionsDoNotMatter ==
  \A o \in Options, d \in Deps : Fits(o, d) = Fits([o EXCEPT !.par = Absent, !.chunk = Absent, !.json = FALSE], d)
=============================================================================
