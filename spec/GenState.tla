------------------------------ MODULE GenState ------------------------------
(***************************************************************************)
(* All shapes a saved cluster state can have.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxRegs, Emit

RegShapes ==
  [start : BOOLEAN, last : BOOLEAN, need : BOOLEAN,
   tc : {"zero", "pos", "neg", "huge", "hugeneg"}, next : BOOLEAN]
UsedShapes == {"none", "one", "odd", "many", "natural", "naturalempty"}

\* what verification and the state editing commands can leave behind
Reachable(r) == /\ r.need => r.last
                /\ r.start => r.last
                /\ ~r.last => r.tc = "zero"

VARIABLES regs, ids, done
vars == <<regs, ids, done>>

Small(r) == r.tc \in {"zero", "huge"}
Init == /\ \E n \in 0..MaxRegs :
             regs \in [1..n -> {r \in RegShapes : Reachable(r) /\ (n > 1 => Small(r))}]
        /\ ids \in UsedShapes
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<regs, ids>>
        /\ (Emit => PrintT("PLAN " \o ToJson([regs |-> regs, ids |-> ids])))
Spec == Init /\ [][Next]_vars

\* Saving and loading is the identity: with Write and Read as given by the
\* file format, nothing is lost.
Write(r) == [startReceiptJWS |-> r.start, lastReceiptJWS |-> r.last,
             lastTurnoverCounter |-> r.tc, needRestoreReceipt |-> r.need,
             chainNextTo |-> r.next]
Read(d) == [start |-> d.startReceiptJWS, last |-> d.lastReceiptJWS, need |-> d.needRestoreReceipt,
            tc |-> d.lastTurnoverCounter, next |-> d.chainNextTo]
RoundTrip == \A i \in DOMAIN regs : Read(Write(regs[i])) = regs[i]
=============================================================================
