----------------------------- MODULE GenCluster -----------------------------
(***************************************************************************)
(* Bookkeeping of a cluster: sequences of verification calls, each with a  *)
(* register selection and a short DEP of some shape, with everything the   *)
(* cluster state must be afterwards.                                       *)
(***************************************************************************)
EXTENDS RKSVCore, Json, TLC

CONSTANTS Depth,      \* number of calls
          Idxs,       \* selections; 99 stands for none, 98 for -1 (a
                      \* configuration file cannot hold negative numbers)
          Shapes,     \* shapes of the DEPs
          IsClosed,
          MaxRej,     \* rejected calls
          Emit

VARIABLES plan, R, cl, last
vars == <<plan, R, cl, last>>

NoCert == [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None]
Env == [hasKey |-> TRUE, keyOK |-> TRUE,
        store |-> <<[id |-> "ser", key |-> "K1", cert |-> NoCert]>>]
G(xs) == [cert |-> NoCert, chain |-> <<>>, recs |-> xs]

Amt(n) == <<Num(n), Zero, Zero, Zero, Zero>>

\* A receipt: chained to `ch`, counter after `tc`
Rec(x, ch, id, n, tc) ==
  [ hash |-> "H" \o ToString(x), reg |-> "REG", regHash |-> "HREG", id |-> id, ts |-> 1,
    zda |-> IF IsClosed THEN "AT0" ELSE "AT1", kind |-> "STD", amt |-> Amt(n), chain |-> ch,
    dec |-> Plus(tc, Num(n)), failed |-> FALSE, signer |-> "K1", serial |-> "ser",
    asHex |-> IF IsClosed THEN None ELSE "ser", asDec |-> None, malf |-> <<>> ]

\* The same of a register of the other kind of system
Other(r) == [r EXCEPT !.zda = IF IsClosed THEN "AT1" ELSE "AT0", !.asHex = IF IsClosed THEN "ser" ELSE None]

N == Len(R)
Rejected(p) == Cardinality({i \in DOMAIN p : ~p[i].ok})
Fresh(k) == "id" \o ToString(k)

\* The receipts of a DEP of shape s = [s, r]: r is the (0-based) register the
\* DEP is made for
PrevHash(r) == IF r = 0 \/ r > Len(cl.regs) \/ cl.regs[r].start = 0 THEN "HREG"
               ELSE R[cl.regs[r].start].hash
ContHash(r) == IF r + 1 > Len(cl.regs) \/ cl.regs[r + 1].last = 0 THEN "HREG"
               ELSE R[cl.regs[r + 1].last].hash
ContTc(r) == IF r + 1 > Len(cl.regs) THEN Zero ELSE cl.regs[r + 1].tc
SomeUsed == IF cl.used = {} THEN "idx" ELSE CHOOSE i \in cl.used : TRUE

Receipts(s) ==
  LET a == N + 1  b == N + 2  r == s.r IN
  CASE s.s = "start"    -> << Rec(a, PrevHash(r), Fresh(a), 0, Zero),
                              Rec(b, "H" \o ToString(a), Fresh(b), 5, Zero) >>
    [] s.s = "startother" -> << Other(Rec(a, PrevHash(r), Fresh(a), 0, Zero)) >>
    [] s.s = "startreg" -> << Rec(a, "HREG", Fresh(a), 0, Zero) >>
    [] s.s = "cont"     -> << Rec(a, ContHash(r), Fresh(a), 3, ContTc(r)) >>
    [] s.s = "contdup"  -> << Rec(a, ContHash(r), SomeUsed, 3, ContTc(r)) >>
    [] s.s = "startdup" -> << Rec(a, PrevHash(r), SomeUsed, 0, Zero) >>
    [] s.s = "contbad"  -> << Rec(a, ContHash(r), Fresh(a), 2, ContTc(r)),
                              Rec(b, "HBAD", Fresh(b), 1, Plus(ContTc(r), Num(2))) >>
    [] s.s = "startbad" -> << Rec(a, PrevHash(r), Fresh(a), 0, Zero),
                              Rec(b, "HBAD", Fresh(b), 1, Zero) >>

Dec(i) == IF i = 99 THEN NoIdx ELSE IF i = 98 THEN -1 ELSE i

Init == plan = <<>> /\ R = <<>> /\ cl = EmptyCluster /\ last = [faults |-> {}, pre |-> EmptyCluster, n |-> 0]

Call(idx, s) ==
  LET f0 == SelectFaults(cl, idx)
      rs == Receipts(s)
      R2 == R \o rs
      xs == [i \in 1..Len(rs) |-> N + i]
      sel == Selected(cl, idx)
      n == RegNo(cl, idx)
      res == Fold(Env, G(xs), R2, sel.regs[n], PrevStart(sel, n), sel.used, xs)
      step(ok, f, c2, nn) ==
        /\ plan' = Append(plan, [idx |-> idx, s |-> s.s, r |-> s.r, ok |-> ok, faults |-> f])
        /\ cl' = c2
        /\ Rejected(plan') <= MaxRej
        /\ last' = [faults |-> f, pre |-> cl, n |-> nn]
        /\ R' = R2
  IN IF f0 # {} THEN step(FALSE, f0, cl, 0)
     ELSE IF res.ok THEN step(TRUE, {}, [regs |-> [sel.regs EXCEPT ![n] = res.st], used |-> res.used], n)
     \* a rejected DEP for a new register may leave a blank slot behind
     ELSE step(FALSE, res.faults, sel, n)

Next == \/ /\ Len(plan) < Depth
           /\ \E idx \in Idxs, s \in [s : Shapes, r : 0..(IF Len(cl.regs) > 2 THEN 2 ELSE Len(cl.regs))] :
                Call(Dec(idx), s)
        \/ /\ Len(plan) = Depth
           /\ plan' = Append(plan, [idx |-> 0, s |-> "end", r |-> 0, ok |-> TRUE, faults |-> {}])
           /\ IF Emit THEN PrintT("PLAN " \o ToJson([p |-> plan])) ELSE TRUE
           /\ UNCHANGED <<R, cl, last>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C10
Untouched == \* other registers and, after a rejection, everything
  /\ \A k \in DOMAIN last.pre.regs : k # last.n => cl.regs[k] = last.pre.regs[k]
  /\ last.faults # {} => /\ cl.used = last.pre.used
                         /\ \A k \in DOMAIN last.pre.regs : cl.regs[k] = last.pre.regs[k]
                         /\ \A k \in DOMAIN cl.regs : k > Len(last.pre.regs) => cl.regs[k] = BlankReg
ChainOfStarts ==
  \A k \in DOMAIN cl.regs : cl.regs[k].start # 0 =>
     R[cl.regs[k].start].chain = IF k = 1 THEN "HREG" ELSE R[cl.regs[k - 1].start].hash
Gapless == \A k \in DOMAIN cl.regs : k < Len(cl.regs) => cl.regs[k].start # 0
Started == {k \in DOMAIN cl.regs : cl.regs[k].start # 0}
ClosedOnly == Cardinality(Started) > 1 => \A k \in Started : Closed(R[cl.regs[k].start])
=============================================================================
