----------------------------- MODULE GenHistory -----------------------------
(***************************************************************************)
(* Bounded receipt histories of one register: every sequence of choices    *)
(* from the configured alphabets up to Depth receipts, ended by the first  *)
(* faulty one.  The design properties are checked in every state; every    *)
(* maximal history is printed as a plan to be replayed in the code, with   *)
(* the verdict the specification gives it.                                 *)
(***************************************************************************)
EXTENDS RKSVCore, Json, TLC

CONSTANTS Depth,          \* number of receipts after the prefix
          FreeFirst,      \* the initial receipt is chosen freely, too
          HasKey, IsClosed, InCluster,
          Kinds, Amts, Sigs, Chains, Tcs, Ids, Regs, Zdas, Tss,
          MaxDev,         \* at most that many faulty attributes per receipt
          TailOnly,       \* deviations only in the last receipt of full depth
          Start,          \* "blank" register, one with a configured chaining
                          \* value ("next"), or a started one with such ("mid")
          Emit

VARIABLES plan, R, st, used, faults, done
vars == <<plan, R, st, used, faults, done>>

Key1 == "K1"
Key0 == "K0"
NoCert == [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None]
Env == [ hasKey |-> HasKey, keyOK |-> TRUE,
         store |-> << [id |-> "s1", key |-> Key1, cert |-> NoCert],
                      [id |-> "c1", key |-> Key0, cert |-> NoCert] >> ]
G == [cert |-> NoCert, chain |-> <<>>]

Dev(p) == Cardinality({a \in {"sig", "chain", "tc", "id", "reg", "zda", "ts"} :
            p[a] \in {"bad", "wrong", "dup", "other", "flip", "down"}})

Good == [kind |-> "STD", amt |-> "Z", sig |-> "ok", chain |-> "good", tc |-> "right",
         id |-> "fresh", reg |-> "same", zda |-> "keep", ts |-> "up"]

Choices == [kind : Kinds, amt : Amts, sig : Sigs, chain : Chains, tc : Tcs,
            id : Ids, reg : Regs, zda : Zdas, ts : Tss]

Sensible(p) ==
  /\ Dev(p) <= MaxDev
  /\ p.sig = "failed" => TRUE
  /\ p.tc = "wrong" => (p.kind = "STD" /\ HasKey)

Amount(a) == CASE a = "Z" -> <<Zero, Zero, Zero, Zero, Zero>>
               [] a = "P" -> <<Num(100), Zero, Num(7), Zero, Zero>>
               [] a = "N" -> <<Zero, Num(-250), Zero, Zero, Zero>>
               [] a = "C" -> <<Num(300), Zero, Zero, Zero, Num(-300)>>

N == Len(R)
PS == IF InCluster THEN 1 ELSE 0
\* in a cluster, R[1] is the start receipt of the register before; in a
\* started register, R[1] is its start receipt
Pre == IF InCluster \/ Start = "mid" THEN 1 ELSE 0
ASSUME ~(InCluster /\ Start = "mid")
InitSt == CASE Start = "blank" -> BlankReg
            [] Start = "next" -> [BlankReg EXCEPT !.next = "HCFG"]
            [] Start = "mid" -> [BlankReg EXCEPT !.start = 1, !.last = 1, !.next = "HCFG"]

ZdaOf(p) == LET base == IF IsClosed THEN "AT0" ELSE "AT1" IN
            CASE p.zda = "keep" -> base
              [] p.zda = "alt"  -> IF IsClosed THEN "AT0" ELSE "DE2"
              [] p.zda = "flip" -> IF IsClosed THEN "AT1" ELSE "AT0"

LastTs == IF N = 0 THEN 5 ELSE R[N].ts

Make(p) ==
  LET x == N + 1
      z == ZdaOf(p)
      pre == [ hash |-> "H" \o ToString(x),
        reg |-> IF p.reg = "same" THEN "REG" ELSE "REX",
        regHash |-> IF p.reg = "same" THEN "HREG" ELSE "HREX",
        id |-> IF p.id = "fresh" \/ used = {} THEN "id" \o ToString(x)
               ELSE CHOOSE i \in used : TRUE,
        ts |-> CASE p.ts = "up" -> LastTs + 1 [] p.ts = "eq" -> LastTs [] p.ts = "down" -> LastTs - 1,
        zda |-> z, kind |-> p.kind, amt |-> Amount(p.amt),
        chain |-> None, dec |-> Zero,
        failed |-> p.sig = "failed",
        signer |-> IF p.sig = "ok" THEN (IF z = "AT0" THEN Key0 ELSE Key1) ELSE None,
        serial |-> IF z = "AT0" THEN "c1" ELSE "s1",
        asHex |-> IF z = "AT0" THEN None ELSE "s1", asDec |-> None,
        malf |-> <<>> ]
      ch == [pre EXCEPT !.chain = IF p.chain = "good" THEN ExpectedChain(R, st, PS, pre) ELSE "HBAD"]
  IN [ch EXCEPT !.dec = IF p.kind # "STD" THEN None
                        ELSE IF p.tc = "right" THEN NewCounter(st, ch)
                        ELSE Plus(NewCounter(st, ch), Num(1))]

ClusterStart == [ hash |-> "H1", reg |-> "REG", regHash |-> "HREG", id |-> "id1", ts |-> 5,
   zda |-> IF IsClosed THEN "AT0" ELSE "AT1", kind |-> "STD", amt |-> Amount("Z"),
   chain |-> "HREG", dec |-> Zero, failed |-> FALSE,
   signer |-> IF IsClosed THEN Key0 ELSE Key1, serial |-> "x", asHex |-> None, asDec |-> None,
   malf |-> <<>>]

Init == /\ plan = <<>> /\ faults = {} /\ done = FALSE
        /\ R = IF Pre = 1 THEN <<ClusterStart>> ELSE <<>>
        /\ used = IF Pre = 1 THEN {"id1"} ELSE {}
        /\ st = InitSt

Add(p) ==
  LET r == Make(p)
      R2 == Append(R, r)
      f == Faults(Env, G, R2, st, PS, used, N + 1)
  IN /\ plan' = Append(plan, p)
     /\ R' = R2
     /\ faults' = f
     /\ IF f = {} THEN /\ st' = Accept(Env, G, R2, st, N + 1)
                       /\ used' = used \cup {r.id}
                  ELSE UNCHANGED <<st, used>>
     /\ UNCHANGED done

Total == Depth + (IF FreeFirst THEN 0 ELSE 1)

Extend ==
  /\ ~done /\ faults = {} /\ Len(plan) < Total
  /\ IF plan = <<>> /\ ~FreeFirst THEN Add(Good)
     ELSE \E p \in Choices :
            /\ Sensible(p)
            /\ TailOnly /\ Len(plan) < Total - 1 => Dev(p) = 0
            /\ Add(p)

Finish ==
  /\ ~done /\ plan # <<>> /\ (faults # {} \/ Len(plan) = Total)
  /\ done' = TRUE
  /\ IF Emit THEN PrintT("PLAN " \o ToJson([p |-> plan, ok |-> faults = {}, faults |-> faults]))
             ELSE TRUE
  /\ UNCHANGED <<plan, R, st, used, faults>>

Next == Extend \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Design properties *)

Acc == IF faults = {} THEN N ELSE N - 1   \* last accepted index
Span(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
First1 == Pre + 1

RECURSIVE SumTo(_)
SumTo(x) == IF x < First1 THEN Zero
            ELSE Plus(SumTo(x - 1), IF R[x].kind = "DUM" THEN Zero ELSE Turnover(R[x]))

\* C02: the counter is the sum of everything but training receipts
CounterIsSum == HasKey => st.tc = SumTo(Acc)

\* C03: a restore receipt is pending exactly after "unsigned, signed with turnover"
NeedMeaning == st.need <=>
  (Acc > First1 /\ ~R[Acc].failed /\ ~IsStdNull(R[Acc]) /\ R[Acc - 1].failed)

\* C04
StartIsFirst == (Start # "mid" /\ Acc >= First1) => /\ st.start = First1
                                 /\ ~R[First1].failed /\ IsStdNull(R[First1])

\* C05
UniqueIds == \A x, y \in 1..Acc : x # y => R[x].id # R[y].id
Monotone == \A x \in First1 + 1..Acc : R[x - 1].ts <= R[x].ts
                                    /\ Closed(R[x - 1]) = Closed(R[x]) /\ R[x - 1].reg = R[x].reg

\* C16: deriving the state group by group gives the verified state
DeriveAgrees == Acc >= First1 =>
  \A k \in First1 - 1..Acc :
    Derive(Env, R, Derive(Env, R, InitSt, Span(First1, k)), Span(k + 1, Acc)) = st

\* C09: going through in two steps, from the state and IDs of the first, is
\* going through in one
SplitAgrees ==
  \A k \in First1 - 1..N :
    LET u0 == IF Pre = 1 THEN {"id1"} ELSE {}
        a == Fold(Env, G, R, InitSt, PS, u0, [i \in 1..(k - First1 + 1) |-> First1 + i - 1])
        b == Fold(Env, G, R, a.st, PS, a.used, [i \in 1..(N - k) |-> k + i])
        w == Fold(Env, G, R, InitSt, PS, u0, [i \in 1..(N - First1 + 1) |-> First1 + i - 1])
    IN IF a.ok THEN b = w ELSE w.ok = FALSE /\ w.faults = a.faults

\* C01: leaving out any receipt but the last, or swapping two, is noticed
Removed(k) == SelectSeq(Span(First1, Acc), LAMBDA x : x # k)
Swapped(k) == [Span(First1, Acc) EXCEPT ![k] = First1 + k, ![k + 1] = First1 + k - 1]
InitUsed == IF Pre = 1 THEN {"id1"} ELSE {}
TamperEvident ==
  /\ \A k \in First1..Acc - 1 : ~Fold(Env, G, R, InitSt, PS, InitUsed, Removed(k)).ok
  /\ \A k \in 1..Acc - First1 : ~Fold(Env, G, R, InitSt, PS, InitUsed, Swapped(k)).ok

\* C16: from any receipt on, the rest is accepted (with the dummy predecessor
\* a state made from an arbitrary receipt has)
DummyPred(r) == [r EXCEPT !.kind = "STD", !.failed = FALSE, !.id = "dummyrec", !.amt = Amount("Z")]
SuffixAccepted ==
  \A k \in First1..Acc :
    (~(HasKey /\ R[k].kind = "REV")
     \* unknown counter until the first standard receipt
     /\ (HasKey => R[k].kind = "STD")) =>
    LET RR == Append(R, DummyPred(R[k]))
        s0 == [BlankReg EXCEPT !.last = N + 1, !.next = R[k].chain,
                               !.tc = IF HasKey THEN Minus(R[k].dec, Turnover(R[k])) ELSE Zero]
    IN Fold(Env, G, RR, s0, 0, {}, Span(k, Acc)).ok
=============================================================================
