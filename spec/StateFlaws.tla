----------------------------- MODULE StateFlaws -----------------------------
(***************************************************************************)
(* Every single deviation of a saved cluster state from its prescribed     *)
(* form: an element missing or of the wrong type.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxRegs, Emit

RegFields == {"startReceiptJWS", "lastReceiptJWS", "lastTurnoverCounter",
              "needRestoreReceipt", "chainNextTo"}
P(n, unit, at, field, how) == [regs |-> n, unit |-> unit, at |-> at, field |-> field, how |-> how]

Plans ==
  {P(n, u, 0, "", "none") : n \in 0..MaxRegs, u \in {"unique", "natural"}}
  \cup {P(n, "root", 0, f, h) : n \in 0..MaxRegs, f \in {"cashRegisters", "usedReceiptIds"},
                               h \in {"missing", "type"}}
  \cup {P(1, "root", 0, "root", "type")}
  \cup {P(n, "reg", a, f, h) : n \in 1..MaxRegs, a \in 0..(MaxRegs - 1), f \in RegFields,
                              h \in {"missing", "type"}}
  \cup {P(n, "reg", a, "register", "type") : n \in 1..MaxRegs, a \in 0..(MaxRegs - 1)}
  \cup {P(n, "ids", 0, f, h) : n \in 0..1, f \in {"backendType", "backendData"},
                              h \in {"missing", "type"}}
  \cup {P(n, "unique", 0, "item", "type") : n \in 0..1}
  \cup {P(n, "natural", 0, f, h) : n \in 0..1, f \in {"minId", "maxId"}, h \in {"missing", "type"}}

VARIABLES plan, done
Init == plan \in {p \in Plans : p.at < p.regs \/ p.at = 0} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED plan
        /\ (Emit => PrintT("PLAN " \o ToJson(plan)))
Spec == Init /\ [][Next]_<<plan, done>>
=============================================================================
