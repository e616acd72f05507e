--------------------------- MODULE VerifyOptions ---------------------------
(***************************************************************************)
(* The command line of verify.py:                                          *)
(*   [state [continue|<n>]] [par <n>] [chunksize <n>] [json] <keys> <DEP>  *)
(* A command line is a sequence of words, numbers as their decimal text.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Absent == 999
\* sel: "" | "continue" | "n" with reg; par, chunk: Absent or a number
Render(o) ==
  (IF o.state THEN <<"state">> ELSE <<>>)
  \o (CASE o.sel = "" -> <<>> [] o.sel = "continue" -> <<"continue">> [] OTHER -> <<ToString(o.reg)>>)
  \o (IF o.par = Absent THEN <<>> ELSE <<"par", ToString(o.par)>>)
  \o (IF o.chunk = Absent THEN <<>> ELSE <<"chunksize", ToString(o.chunk)>>)
  \o (IF o.json THEN <<"json">> ELSE <<>>)

\* the register a run works on: regs registers in the state that was read
Target(o, regs) == LET k == IF o.state THEN regs ELSE 0 IN
                   CASE o.sel = "n" -> o.reg
                     [] o.sel = "continue" /\ o.state -> k - 1
                     [] OTHER -> k          \* a new one
=============================================================================
