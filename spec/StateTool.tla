----------------------------- MODULE StateTool -----------------------------
(***************************************************************************)
(* verification_state.py: what each command makes of the state file.       *)
(*                                                                         *)
(* A file is [kind, regs, used, type]: kind "ok", "bad" or "none"; values  *)
(* of registers are texts (JSON), need a truth value, used a set.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Null == "null"
Blank == [start |-> Null, last |-> Null, tc |-> "0", need |-> FALSE, next |-> Null]
NoFile == [kind |-> "none", regs |-> <<>>, used |-> {}, type |-> ""]
Empty(ty) == [kind |-> "ok", regs |-> <<>>, used |-> {}, type |-> ty]

HasStart(r) == r.start # Null /\ r.start # "\"\""
Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]

\* commands that need a readable state file
Loads(c) == c.cmd \notin {"create", "fromReceipt", "fromStart", "misuse"}
\* commands on one register, numbered from 0
Addresses(c) == c.cmd \in {"reset", "delete", "setLast", "setCounter", "setNext", "toggle", "setStart",
                           "copy", "update"}

Can(f, c) ==
  /\ c.arg = "good"
  /\ Loads(c) => f.kind = "ok"
  /\ Addresses(c) => c.n \in 0..(Len(f.regs) - 1)
  /\ c.cmd = "add" => f.regs = <<>> \/ HasStart(f.regs[Len(f.regs)])
  /\ c.cmd = "copy" => c.src.kind = "ok" /\ c.m \in 0..(Len(c.src.regs) - 1)

\* ty: the configured way to keep track of used receipt IDs
After(f, c, ty) ==
  LET k == c.n + 1 IN
  IF ~Can(f, c) \/ c.cmd = "misuse" THEN f
  ELSE CASE c.cmd = "create" -> Empty(ty)
         [] c.cmd = "show" -> f
         [] c.cmd = "add" -> [f EXCEPT !.regs = Append(@, Blank)]
         [] c.cmd = "reset" -> [f EXCEPT !.regs[k] = Blank, !.used = {}, !.type = ty]
         [] c.cmd = "delete" -> [f EXCEPT !.regs = Without(@, k)]
         [] c.cmd = "setLast" -> [f EXCEPT !.regs[k].last = c.text]
         [] c.cmd = "setCounter" -> [f EXCEPT !.regs[k].tc = c.text]
         [] c.cmd = "setNext" -> [f EXCEPT !.regs[k].next = c.text]
         [] c.cmd = "setStart" -> [f EXCEPT !.regs[k].start = c.text]
         [] c.cmd = "toggle" -> [f EXCEPT !.regs[k].need = ~@]
         [] c.cmd = "readIds" -> [f EXCEPT !.used = c.ids, !.type = ty]
         [] c.cmd = "copy" -> [f EXCEPT !.regs[k] = c.src.regs[c.m + 1]]
         [] c.cmd = "update" -> [f EXCEPT !.regs[k] = c.reg]     \* as derived from the DEP
         [] c.cmd \in {"fromReceipt", "fromStart"} -> [Empty(ty) EXCEPT !.regs = <<c.reg>>]
=============================================================================
