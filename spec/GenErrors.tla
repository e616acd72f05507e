------------------------------ MODULE GenErrors ------------------------------
(***************************************************************************)
(* How a failure gets from the receipt at fault to the caller of a         *)
(* verification in work packages.                                          *)
(*                                                                         *)
(* A DEP of n receipts has one or two of them at fault.  A worker raises   *)
(* the exception that names the first fault of its package; to reach the   *)
(* dispatcher it is packed (class and the arguments it is made of) and     *)
(* made again on the other side.  The packages of a batch finish and their *)
(* messages arrive in any order; once all are there, the first error to    *)
(* have arrived is the outcome of the run.                                 *)
(*                                                                         *)
(* Lossy names fault classes packed without their last argument, Stuck     *)
(* those that cannot be made again, whose message never arrives.  The      *)
(* design has neither; with them the properties below do not hold, which   *)
(* is checked as well.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS MaxN, Faults,
          Initial,    \* faults of the first receipt only
          Follow,     \* faults that need a receipt before
          Third,      \* faults that need three before
          Second,     \* faults that may come in addition, later on
          Chunks,     \* 0: everything at once
          Procs, Lossy, Stuck, Run, Emit

VARIABLES n, at, chunk, procs, pos, run, first, out, pc
vars == <<n, at, chunk, procs, pos, run, first, out, pc>>

None == "-"
Places(f) == IF f \in Initial THEN {1} ELSE IF f \in Follow THEN 2..n
             ELSE IF f \in Third THEN 4..n ELSE 1..n

Init == /\ n \in 1..MaxN /\ chunk \in Chunks /\ procs \in Procs
        /\ at = <<>> /\ pos = 1 /\ run = <<>> /\ first = <<>> /\ out = <<>> /\ pc = "plan"

\* at: sequence of [at, f] in order of the places
Choose ==
  /\ pc = "plan"
  /\ \/ \E f \in Faults : \E i \in Places(f) :
          /\ at' = <<[at |-> i, f |-> f]>>
     \/ \E f \in Faults, g \in Second : \E i \in Places(f) : \E j \in Places(g) :
          /\ i < j
          /\ at' = <<[at |-> i, f |-> f], [at |-> j, f |-> g]>>
     \/ at' = <<>>
  /\ pc' = IF Run THEN "run" ELSE "end"
  /\ IF Emit THEN PrintT("PLAN " \o ToJson([n |-> n, at |-> at', chunk |-> chunk, procs |-> procs]))
     ELSE TRUE
  /\ UNCHANGED <<n, chunk, procs, pos, run, first, out>>

----------------------------------------------------------------------------
(* Exceptions *)

Exc(p)  == [cls |-> p.f, args |-> <<p.at, "why">>]
Text(e) == <<e.cls, e.args>>
Pack(e) == [cls |-> e.cls,
            init |-> IF e.cls \in Lossy THEN SubSeq(e.args, 1, Len(e.args) - 1) ELSE e.args]
Again(m) == m.cls \notin Stuck
Make(m) == [cls |-> m.cls,
            args |-> IF Len(m.init) = 2 THEN m.init ELSE m.init \o <<"default">>]

(* Packages *)

Chunk == IF chunk = 0 THEN n ELSE chunk
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Batch(_, _)
Batch(a, k) == IF k = 0 \/ a > n THEN <<>>
               ELSE <<[from |-> a, to |-> Min(a + Chunk - 1, n), st |-> "todo", msg |-> <<>>]>>
                      \o Batch(a + Chunk, k - 1)

Within(k) == SelectSeq(at, LAMBDA p : p.at >= k.from /\ p.at <= k.to)

Work(i) ==
  /\ pc = "run" /\ i \in DOMAIN run /\ run[i].st = "todo"
  /\ LET w == Within(run[i]) IN
     run' = [run EXCEPT ![i].st = "sent",
                        ![i].msg = IF w = <<>> THEN <<>> ELSE <<Pack(Exc(w[1]))>>]
  /\ UNCHANGED <<n, at, chunk, procs, pos, first, out, pc>>

Arrive(i) ==
  /\ pc = "run" /\ i \in DOMAIN run /\ run[i].st = "sent"
  /\ run[i].msg # <<>> => Again(run[i].msg[1])
  /\ run' = [run EXCEPT ![i].st = "there"]
  /\ first' = IF first = <<>> /\ run[i].msg # <<>> THEN <<Make(run[i].msg[1])>> ELSE first
  /\ UNCHANGED <<n, at, chunk, procs, pos, out, pc>>

Collect ==
  /\ pc = "run" /\ \A i \in DOMAIN run : run[i].st = "there"
  /\ IF first # <<>> THEN out' = first /\ pc' = "end" /\ UNCHANGED <<run, pos>>
     ELSE IF pos > n THEN pc' = "end" /\ UNCHANGED <<run, pos, out>>
     ELSE LET b == Batch(pos, procs) IN
          /\ run' = b /\ pos' = b[Len(b)].to + 1 /\ UNCHANGED <<out, pc>>
  /\ UNCHANGED <<n, at, chunk, procs, first>>

Next == Choose \/ Collect \/ \E i \in 1..4 : Work(i) \/ Arrive(i)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Choose) /\ WF_vars(Collect)
             /\ \A i \in 1..4 : WF_vars(Work(i)) /\ WF_vars(Arrive(i))

----------------------------------------------------------------------------
\* what the caller gets is a fault of the DEP, as the worker described it
Truthful == pc = "end" /\ Run =>
  IF at = <<>> THEN out = <<>>
  ELSE /\ out # <<>>
       /\ \E i \in DOMAIN at : out[1] = Exc(at[i]) /\ Text(out[1]) = Text(Exc(at[i]))
\* a single package reports the first one
InOrder == pc = "end" /\ Run /\ Chunk >= n /\ at # <<>> => out[1] = Exc(at[1])
Ends == <>(pc = "end")
=============================================================================
