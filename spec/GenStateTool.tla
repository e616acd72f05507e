---------------------------- MODULE GenStateTool ----------------------------
(***************************************************************************)
(* Sequences of state editing commands.                                    *)
(***************************************************************************)
EXTENDS StateTool, Json, TLC

CONSTANTS Depth, Rich, Emit

Ty == "U"
VARIABLES f, plan, old, first
vars == <<f, plan, old, first>>

Cmd(name) == [cmd |-> name, n |-> 0, m |-> 0, text |-> "", arg |-> "good", ids |-> {}, src |-> NoFile, reg |-> Blank]
Nums == 0..1
Texts == {"\"X\"", Null} \cup IF Rich THEN {"\"\""} ELSE {}
Args == {"good", "bad"}
Made == [Blank EXCEPT !.last = "\"made\"", !.tc = "7"]      \* by update or from a receipt
Other == [kind |-> "ok", regs |-> <<[Blank EXCEPT !.start = "\"other\"", !.need = TRUE]>>, used |-> {"o"}, type |-> Ty]

Commands ==
  {Cmd("create"), Cmd("show"), Cmd("add"), Cmd("misuse")}
  \cup {[Cmd(c) EXCEPT !.n = n] : c \in {"reset", "delete", "toggle"}, n \in Nums}
  \cup {[Cmd("reset") EXCEPT !.n = -1]}     \* there is no such register
  \cup {[Cmd(c) EXCEPT !.n = n, !.text = x] : c \in {"setLast", "setNext", "setStart"}, n \in Nums, x \in Texts}
  \cup {[Cmd("setCounter") EXCEPT !.n = n, !.text = "5", !.arg = a] : n \in Nums, a \in Args}
  \cup {[Cmd("readIds") EXCEPT !.ids = i, !.arg = a] : i \in {{}, {"a", "b"}}, a \in Args}
  \cup {[Cmd("copy") EXCEPT !.n = n, !.m = m, !.src = s] : n \in Nums, m \in Nums, s \in {f, Other, NoFile}}
  \cup {[Cmd("update") EXCEPT !.n = n, !.reg = Made, !.arg = a] : n \in Nums, a \in Args}
  \cup {[Cmd(c) EXCEPT !.reg = Made, !.arg = a] : c \in {"fromReceipt", "fromStart"}, a \in Args}

Init == /\ f \in {NoFile, [NoFile EXCEPT !.kind = "bad"]}
                 \cup {[Empty(Ty) EXCEPT !.used = {"u"}, !.regs = <<[Blank EXCEPT !.start = "\"s\"", !.tc = "3"]>>]}
        /\ plan = <<>> /\ old = f /\ first = f

Next == \E c \in Commands :
  /\ Len(plan) < Depth
  /\ f' = After(f, c, Ty)
  /\ old' = f /\ UNCHANGED first
  /\ plan' = Append(plan, c)
  /\ IF Emit /\ Len(plan') = Depth THEN PrintT("PLAN " \o ToJson([cmds |-> plan', init |-> first])) ELSE TRUE
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
LastC == plan[Len(plan)]
Ran == plan # <<>>
FailingLeaves == Ran /\ ~Can(old, LastC) => f = old
\* commands on one register leave the others alone
OthersStay == Ran /\ Addresses(LastC) /\ Can(old, LastC) /\ LastC.cmd # "delete" =>
                /\ Len(f.regs) = Len(old.regs)
                /\ \A k \in DOMAIN f.regs : k # LastC.n + 1 => f.regs[k] = old.regs[k]
OrderStays == Ran /\ LastC.cmd = "delete" /\ Can(old, LastC) =>
                \A k \in DOMAIN f.regs : f.regs[k] = old.regs[IF k <= LastC.n THEN k ELSE k + 1]
UsedStay == Ran /\ LastC.cmd \notin {"create", "reset", "readIds", "fromReceipt", "fromStart"} =>
              f.used = old.used /\ f.type = old.type
OnlyField == Ran /\ LastC.cmd \in {"setLast", "setCounter", "setNext", "setStart", "toggle"} /\ Can(old, LastC) =>
               Cardinality({x \in {"start", "last", "tc", "need", "next"} :
                            f.regs[LastC.n + 1][x] # old.regs[LastC.n + 1][x]}) <= 1
ReadableStays == Ran /\ old.kind = "ok" => f.kind = "ok"
=============================================================================
