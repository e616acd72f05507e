---------------------------- MODULE GenScenario ----------------------------
(***************************************************************************)
(* All short scenarios that keep the rules. Checked: its DEPs, verified    *)
(* one after the other into a cluster state as their references tell, are  *)
(* accepted by the rules of verification.                                  *)
(***************************************************************************)
EXTENDS Scenario, Json, TLC

CONSTANTS Depth, Kinds, Amts, Devs, Sigs, News, ClosedOnes, GroupedOnes, Emit

VARIABLES closed, grouped, S, st, R, script
vars == <<closed, grouped, S, st, R, script>>

NoCert == [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None]
Key(d) == "K" \o ToString(d)
Id(d) == "s" \o ToString(d)
Env == [hasKey |-> TRUE, keyOK |-> TRUE,
        store |-> <<[id |-> Id(0), key |-> Key(0), cert |-> NoCert], [id |-> Id(1), key |-> Key(1), cert |-> NoCert]>>]
Group == [cert |-> NoCert, chain |-> <<>>]
Amount(a) == CASE a = "Z" -> <<Zero, Zero, Zero, Zero, Zero>>
               [] a = "P" -> <<Num(100), Zero, Num(7), Zero, Zero>>
               [] a = "N" -> <<Zero, Num(-250), Zero, Zero, Zero>>

Init == /\ closed \in ClosedOnes /\ grouped \in GroupedOnes
        /\ S = NoScenario /\ st = <<>> /\ R = <<>> /\ script = <<>>

Made(T, i) ==
  LET k == Len(R) + 1
      x == T.recs[k] IN
  [hash |-> "H" \o ToString(k), reg |-> "REG", regHash |-> "HREG", id |-> "id" \o ToString(k), ts |-> k,
   zda |-> IF closed THEN "AT0" ELSE "AT1", kind |-> i.kind, amt |-> i.amt,
   chain |-> IF x.pred = 0 THEN "HREG" ELSE R[x.pred].hash,
   dec |-> IF i.kind = "STD" THEN x.tc ELSE None,
   failed |-> i.sig = "failed", signer |-> IF i.sig = "failed" THEN None ELSE Key(i.dev),
   serial |-> Id(i.dev), asHex |-> IF closed THEN None ELSE Id(i.dev), asDec |-> None, malf |-> <<>>]

Instructions == {i \in [new : News, cont : {Absent} \cup 0..(Len(S.regs) - 1), dev : Devs, sig : Sigs, kind : Kinds, a : Amts] :
                   /\ i.new # "dep" => i.cont = Absent
                   /\ S.cur = 0 => i.new = "no"
                   /\ i.new = "cluster" => closed}

Next == \E j \in Instructions :
  LET i == [new |-> j.new, cont |-> j.cont, dev |-> j.dev, kind |-> j.kind, amt |-> Amount(j.a), sig |-> j.sig]
      T == Tell(S, i, grouped)
      r == RegOf(S, i)
      s == IF Begins(S, i) THEN BlankReg ELSE st[r]
      R2 == Append(R, Made(T, i))
      k == Len(R2)
      ps == IF r > 1 THEN S.regs[r - 1].start ELSE 0 IN
  /\ Len(R) < Depth
  \* the failure protocol and the start receipts are up to who writes it
  /\ RestoreFaults(Env, Group, s, R2[k]) = {}
  /\ Begins(S, i) => j.sig = "ok" /\ j.kind = "STD" /\ j.a = "Z"
  /\ S' = T /\ R' = R2
  /\ st' = IF Begins(S, i) THEN Append(st, Accept(Env, Group, R2, s, k))
           ELSE [st EXCEPT ![r] = Accept(Env, Group, R2, s, k)]
  /\ script' = Append(script, j)
  /\ UNCHANGED <<closed, grouped>>
  /\ IF Emit /\ k = Depth THEN PrintT("PLAN " \o ToJson([closed |-> closed, grouped |-> grouped, script |-> script']))
     ELSE TRUE
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RecsOf(d) == Flat([g \in DOMAIN d.groups |-> d.groups[g].recs])
Told1 == S.recs # <<>>
\* every receipt once, in order
Complete == Told1 => Flat([d \in DOMAIN S.deps |-> RecsOf(S.deps[d])]) = [k \in DOMAIN R |-> k]
\* each DEP holds receipts of one register only, and says which
OneRegister == Told1 => \A d \in DOMAIN S.deps : \A k \in Range(RecsOf(S.deps[d])) : S.recs[k].reg = S.deps[d].reg
References == Told1 => Followed(S.deps, <<>>, 0) = [d \in DOMAIN S.deps |-> S.deps[d].reg]
ByDevice == Told1 => \A d \in DOMAIN S.deps : LET gs == S.deps[d].groups IN
              IF grouped THEN /\ \A g \in DOMAIN gs : \A k \in Range(gs[g].recs) : script[k].dev = gs[g].dev
                              /\ \A g \in 1..(Len(gs) - 1) : gs[g].dev # gs[g + 1].dev
              ELSE Len(gs) = 1

RECURSIVE Verify(_, _, _)
Verify(ds, cl, where) ==
  IF ds = <<>> THEN [ok |-> TRUE, cl |-> cl]
  ELSE LET n == Head(where)
           c0 == IF n = Len(cl.regs) + 1 THEN Grown(cl) ELSE cl
           f == Fold(Env, Group, R, c0.regs[n], PrevStart(c0, n), c0.used, RecsOf(Head(ds))) IN
       IF ~f.ok THEN [ok |-> FALSE, cl |-> cl]
       ELSE Verify(Tail(ds), [regs |-> [c0.regs EXCEPT ![n] = f.st], used |-> f.used], Tail(where))
\* the DEPs satisfy all rules, and the verifier ends where the registers are
Verifies == Told1 =>
  LET v == Verify(S.deps, EmptyCluster, Followed(S.deps, <<>>, 0)) IN
  v.ok /\ v.cl.regs = st /\ \A r \in DOMAIN st : st[r].tc = S.regs[r].tc /\ st[r].last = S.regs[r].last
=============================================================================
