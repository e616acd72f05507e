---------------------------- MODULE GenRegister ----------------------------
(***************************************************************************)
(* A cash register under all sequences of requests: receipts of every      *)
(* kind signed by devices that work, fail or raise, counters that do not   *)
(* fit, requests that cannot be met, the register being restarted. Checked *)
(* against the rules of verification (RKSVCore): as long as requests keep  *)
(* the failure protocol, every receipt satisfies all of them, and the      *)
(* register and the verifier agree about counter and last receipt.         *)
(***************************************************************************)
EXTENDS RegisterCore, TLC, Json

CONSTANTS Kinds, Amts,
          Devs,       \* ok, ok2 (another device), failed, raises; for a remote
                      \* device what its service does (all but "up" are failures)
          Bads,       \* flaws of requests that cannot be met
          IsClosed, InCluster, Restarts, Depth, Emit

VARIABLES g, R, st, used, ok, script
vars == <<g, R, st, used, ok, script>>

NoCert == [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None]
Env == [ hasKey |-> TRUE, keyOK |-> TRUE,
         store |-> << [id |-> "s1", key |-> "K1", cert |-> NoCert],
                      [id |-> "s2", key |-> "K2", cert |-> NoCert],
                      [id |-> "c1", key |-> "K1", cert |-> NoCert],
                      [id |-> "c2", key |-> "K2", cert |-> NoCert] >> ]
Group == [cert |-> NoCert, chain |-> <<>>]
Lim5 == <<55813888, 5497, 0, 0, 0>>       \* 2^39

Amount(a) == CASE a = "Z" -> <<Zero, Zero, Zero, Zero, Zero>>
               [] a = "P" -> <<Num(100), Zero, Num(7), Zero, Zero>>
               [] a = "N" -> <<Zero, Num(-250), Zero, Zero, Zero>>
               [] a = "C" -> <<Num(300), Zero, Zero, Zero, Num(-300)>>
               [] a = "B" -> <<Zero, Zero, Zero, <<30000000, 4000, 0, 0, 0>>, Zero>>

N == Len(R)
PS == IF InCluster THEN 1 ELSE 0
StartOfOther == [ hash |-> "H1", reg |-> "REH", regHash |-> "HREH", id |-> "id1", ts |-> 5,
   zda |-> "AT0", kind |-> "STD", amt |-> Amount("Z"), chain |-> "HREH", dec |-> Zero, failed |-> FALSE,
   signer |-> "K1", serial |-> "c1", asHex |-> None, asDec |-> None, malf |-> <<>>]

Init == /\ g = [reg |-> "REG", regHash |-> "HREG", last |-> PS, tc |-> Zero, size |-> 5, lim |-> Lim5]
        /\ R = IF InCluster THEN <<[StartOfOther EXCEPT !.reg = "REG"]>> ELSE <<>>
        /\ used = IF InCluster THEN {"id1"} ELSE {}
        /\ st = BlankReg /\ ok = TRUE /\ script = <<>>

Works(dev) == dev \in {"ok", "ok2", "up"}
Two(dev) == dev = "ok2"
Request(k, a, dev) ==
  [id |-> "id" \o ToString(N + 1), ts |-> 5 + N, kind |-> k, amt |-> Amount(a),
   zda |-> IF IsClosed THEN "AT0" ELSE IF Two(dev) THEN "AT2" ELSE "AT1",
   serial |-> IF IsClosed THEN IF Two(dev) THEN "c2" ELSE "c1" ELSE IF Two(dev) THEN "s2" ELSE "s1",
   key |-> IF Two(dev) THEN "K2" ELSE "K1"]
Made(req, dev) ==
  [hash |-> "H" \o ToString(N + 1), reg |-> g.reg, regHash |-> g.regHash, id |-> req.id, ts |-> req.ts,
   zda |-> req.zda, kind |-> req.kind, amt |-> req.amt, chain |-> ChainOfReg(R, g),
   dec |-> IF req.kind = "STD" THEN NextCounter(g, req) ELSE None,
   failed |-> ~Works(dev), signer |-> IF Works(dev) THEN req.key ELSE None, serial |-> req.serial,
   asHex |-> IF IsClosed THEN None ELSE req.serial, asDec |-> None, malf |-> <<>>]

Room == Len(script) < Depth
Do(what, k, a, dev, bad, done) ==
  script' = Append(script, [what |-> what, kind |-> k, amt |-> a, dev |-> dev, bad |-> bad, ok |-> done])

Receipt(k, a, dev) ==
  /\ Room
  /\ LET req == Request(k, a, dev)
         R2 == Append(R, Made(req, dev))
     IN IF dev = "raises" \/ ~Possible(g, req)
        THEN Do("receipt", k, a, dev, "", FALSE) /\ UNCHANGED <<g, R, st, used, ok>>
        ELSE /\ Allowed(Env, Group, R2, st, PS, used, N + 1)
             /\ R' = R2 /\ g' = Advance(g, req, N + 1)
             /\ ok' = (Faults(Env, Group, R2, st, PS, used, N + 1) = {}
                       /\ DataFaults(R2, g, req, IF Works(dev) THEN "ok" ELSE "failed", R2[N + 1]) = {})
             /\ st' = Accept(Env, Group, R2, st, N + 1)
             /\ used' = used \cup {req.id}
             /\ Do("receipt", k, a, dev, "", TRUE)
\* a request that cannot be met
Refused(k, a, bad) == Room /\ (bad = "key" => k = "STD") /\ Do("receipt", k, a, "ok", bad, FALSE) /\ UNCHANGED <<g, R, st, used, ok>>
\* a new object goes on with what was kept
Restart == /\ Room /\ Restarts /\ script # <<>> /\ script[Len(script)].what # "restart"
           /\ Do("restart", "", "", "", "", TRUE) /\ UNCHANGED <<g, R, st, used, ok>>

Next == \/ \E k \in Kinds, a \in Amts, dev \in Devs : Receipt(k, a, dev)
        \/ \E k \in Kinds, a \in Amts, bad \in Bads : Refused(k, a, bad)
        \/ Restart
Spec == Init /\ [][Next]_vars

Valid == ok
Agree == N > PS => g.last = st.last /\ g.tc = st.tc /\ g.last = N
Counts == Fits(g.tc, g.lim) \/ \E x \in 1..N : R[x].kind = "REV"
\* after a failure nothing but failures until the restore receipt, or one
\* receipt that asks for it
Restored == st.need => R[N].failed = FALSE /\ ~IsStdNull(R[N]) /\ R[N - 1].failed
Plan == (Emit /\ Len(script) = Depth) => PrintT("PLAN " \o ToJson([script |-> script, closed |-> IsClosed, cluster |-> InCluster]))
=============================================================================
