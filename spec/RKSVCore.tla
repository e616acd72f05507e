------------------------------ MODULE RKSVCore ------------------------------
(***************************************************************************)
(* The design of DEP verification: what it means for one more receipt to   *)
(* be acceptable in a given register state, and what the state is then.    *)
(*                                                                         *)
(* A receipt is a record of facts about one JWS:                           *)
(*   hash     chaining value derived from this very JWS                    *)
(*   regHash  chaining value derived from the register ID                  *)
(*   reg, id, ts (rank of the time stamp), zda                             *)
(*   kind     "STD" | "DUM" (training) | "REV" (reversal)                  *)
(*   amt      the five sums in cents, as limb numbers                      *)
(*   chain    the chaining value it states                                 *)
(*   dec      its turnover counter decrypted with the key of the run       *)
(*   failed   it carries the device failure marker instead of a signature  *)
(*   signer   the key that really signed exactly this content, or "-"      *)
(*   serial   what it designates as key; asHex / asDec are the key IDs     *)
(*            meant if that is read as hexadecimal / decimal serial        *)
(*   malf     why it is not a receipt at all (sequence of error names)          *)
(* Receipts live in a table R; states refer to them by index, 0 is none.   *)
(*                                                                         *)
(* Faults are named after the exception that reports them.  Faults() gives *)
(* the set of all rules broken by a receipt, not the first one in some     *)
(* order: any of them is a truthful report.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Limbs

None == "-"
Range(s) == {s[i] : i \in DOMAIN s}

BlankReg == [start |-> 0, last |-> 0, tc |-> Zero, need |-> FALSE, next |-> None]
EmptyCluster == [regs |-> <<>>, used |-> {}]

----------------------------------------------------------------------------
(* Receipt predicates *)

IsNull(r)    == \A i \in 1..5 : IsZero(r.amt[i])
IsStdNull(r) == IsNull(r) /\ r.kind = "STD"
Turnover(r)  == SumSeq(r.amt)
Closed(r)    == r.zda = "AT0"

----------------------------------------------------------------------------
(* Key selection.  env.store is a sequence of entries                      *)
(* [id, key, cert |-> [has, serial, fp, key, signer]];                     *)
(* a group has cert (same shape) and chain (sequence of them).             *)

StoreHas(env, id)  == \E i \in DOMAIN env.store : env.store[i].id = id
StoreGet(env, id)  == env.store[CHOOSE i \in DOMAIN env.store : env.store[i].id = id]
StoreKey(env, id)  == IF StoreHas(env, id) THEN StoreGet(env, id).key ELSE None

SelectKey(env, g, r) ==
  IF Closed(r)
  THEN IF g.cert.has THEN g.cert.key ELSE StoreKey(env, r.serial)
  ELSE IF g.cert.has
       THEN IF g.cert.serial \in {r.asHex, r.asDec} THEN g.cert.key ELSE "MISMATCH"
       ELSE IF StoreKey(env, r.asHex) # None THEN StoreKey(env, r.asHex)
                                             ELSE StoreKey(env, r.asDec)

SigFaults(env, g, r) ==
  LET k == SelectKey(env, g, r) IN
  IF k = "MISMATCH" THEN {"CertSerialMismatchException"}
  ELSE IF r.failed THEN {}
  ELSE IF k = None THEN {"NoPublicKeyException"}
  ELSE IF r.signer # k THEN {"InvalidSignatureException"}
  ELSE {}

SignedOK(env, g, r) == ~r.failed /\ SigFaults(env, g, r) = {}

----------------------------------------------------------------------------
(* Certificate trust *)

LinkOK(c, by) == c.signer = by.key

RECURSIVE Walk(_, _, _)
Walk(env, c, chain) ==
  IF StoreHas(env, c.serial) /\ StoreGet(env, c.serial).cert.has
  THEN IF StoreGet(env, c.serial).cert.fp = c.fp THEN {}
       ELSE {"CertificateSerialCollisionException"}
  ELSE IF chain = <<>> THEN {"UntrustedCertificateException"}
  ELSE IF ~LinkOK(c, Head(chain)) THEN {"CertificateChainBrokenException"}
  ELSE Walk(env, Head(chain), Tail(chain))

CertFaults(env, g) == IF g.cert.has THEN Walk(env, g.cert, g.chain) ELSE {}

(* A DEP with several groups must name the certificate of each.            *)
NoCertFaults(groups, j) ==
  IF \E i \in 1..Len(groups) : i <= j /\ Len(groups[i].recs) > 0 /\ ~groups[i].cert.has
        /\ \E k \in 1..j : k # i /\ Len(groups[k].recs) > 0
  THEN {"NoCertificateGivenException"} ELSE {}

----------------------------------------------------------------------------
(* One receipt.  st is the register state, used the IDs used so far in the *)
(* cluster, ps the index of the start receipt of the preceding register.   *)

First(st) == st.last = 0
Pred(st, ps) == IF First(st) THEN ps ELSE st.last

ExpectedChain(R, st, ps, r) ==
  IF st.next # None THEN st.next
  ELSE IF Pred(st, ps) = 0 THEN r.regHash ELSE R[Pred(st, ps)].hash

NewCounter(st, r) == Plus(st.tc, Turnover(r))

ChainFaults(R, st, ps, r) ==
  IF r.chain = ExpectedChain(R, st, ps, r) THEN {}
  ELSE IF ~First(st) THEN {"ChainingException"}
  ELSE IF ps # 0 THEN {"InvalidChainingOnClusterInitialReceiptException"}
  ELSE {"InvalidChainingOnInitialReceiptException"}

CounterFaults(env, st, r) ==
  IF ~env.hasKey \/ r.kind = "DUM" THEN {}
  ELSE IF ~env.keyOK THEN {"InvalidKeyException"}
  ELSE IF r.kind = "STD" /\ r.dec # NewCounter(st, r) THEN {"InvalidTurnoverCounterException"}
  ELSE {}

RestoreFaults(env, g, st, r) ==
  IF ~First(st) /\ st.need /\ (r.failed \/ (SignedOK(env, g, r) /\ ~IsStdNull(r)))
  THEN {"NoRestoreReceiptAfterSignatureSystemFailureException"} ELSE {}

InitialFaults(R, st, ps, r) ==
  IF ~First(st) THEN {}
  ELSE (IF r.failed THEN {"SignatureSystemFailedOnInitialReceiptException"} ELSE {})
    \cup (IF ~IsNull(r) THEN {"NonzeroTurnoverOnInitialReceiptException"} ELSE {})
    \cup (IF r.kind # "STD" THEN {"NonstandardTypeOnInitialReceiptException"} ELSE {})
    \cup (IF ps # 0 /\ (~Closed(r) \/ ~Closed(R[ps]))
          THEN {"ClusterInOpenSystemException"} ELSE {})

(* Tracking of used IDs: all of them, or (env.natural) only the first and  *)
(* the last one, IDs having to come in the order of their ranks.           *)
Natural(env) == "natural" \in DOMAIN env /\ env.natural
LeastOf(S) == CHOOSE m \in S : \A n \in S : m <= n
IdUsed(env, used, r) == IF Natural(env) THEN \E u \in used : u >= r.rank ELSE r.id \in used
Note(env, used, r) == IF ~Natural(env) THEN used \cup {r.id}
                      ELSE IF used = {} THEN {r.rank} ELSE {LeastOf(used), r.rank}

ContinuityFaults(env, R, st, ps, used, r) ==
  LET p == Pred(st, ps) IN
    (IF IdUsed(env, used, r) THEN {"DuplicateReceiptIdException"} ELSE {})
    \cup (IF p = 0 THEN {} ELSE
           (IF R[p].reg # r.reg THEN {"ChangingRegisterIdException"} ELSE {})
      \cup (IF Closed(R[p]) # Closed(r) THEN {"ChangingSystemTypeException"} ELSE {})
      \cup (IF R[p].ts > r.ts THEN {"DecreasingDateException"} ELSE {}))

Faults(env, g, R, st, ps, used, x) ==
  LET r == R[x] IN
  IF r.malf # <<>> THEN Range(r.malf)
  ELSE SigFaults(env, g, r)
       \cup RestoreFaults(env, g, st, r)
       \cup InitialFaults(R, st, ps, r)
       \cup ContinuityFaults(env, R, st, ps, used, r)
       \cup ChainFaults(R, st, ps, r)
       \cup CounterFaults(env, st, r)

(* The register state after an acceptable receipt.                         *)
Accept(env, g, R, st, x) ==
  LET r == R[x] IN
  [ start |-> IF First(st) THEN x ELSE st.start,
    last  |-> x,
    tc    |-> IF env.hasKey /\ r.kind # "DUM" THEN NewCounter(st, r) ELSE st.tc,
    need  |-> IF r.failed THEN st.need
              ELSE ~First(st) /\ ~IsStdNull(r) /\ (R[st.last].failed \/ st.need),
    next  |-> None ]

----------------------------------------------------------------------------
(* A whole list of receipts in one go (for design properties).             *)

RECURSIVE Fold(_, _, _, _, _, _, _)
\* -> [ok, st, used, faults, at]
Fold(env, g, R, st, ps, used, xs) ==
  IF xs = <<>> THEN [ok |-> TRUE, st |-> st, used |-> used, faults |-> {}, at |-> 0]
  ELSE LET f == Faults(env, g, R, st, ps, used, Head(xs)) IN
       IF f # {} THEN [ok |-> FALSE, st |-> st, used |-> used, faults |-> f, at |-> Head(xs)]
       ELSE Fold(env, g, R, Accept(env, g, R, st, Head(xs)), ps,
                 Note(env, used, R[Head(xs)]), Tail(xs))

----------------------------------------------------------------------------
(* Deriving a state without verifying: what updating a register from a     *)
(* list of receipts gives (the start state of a parallel work package).    *)

RECURSIVE TrailingReversals(_, _)
TrailingReversals(R, xs) ==   \* sum of the reversals after the last standard receipt
  IF xs = <<>> THEN Zero
  ELSE LET r == R[xs[Len(xs)]] IN
       IF r.kind = "STD" THEN Zero
       ELSE Plus(IF r.kind = "REV" THEN Turnover(r) ELSE Zero,
                 TrailingReversals(R, SubSeq(xs, 1, Len(xs) - 1)))

StdIdx(R, xs) == {i \in DOMAIN xs : R[xs[i]].kind = "STD"}
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m

Derive(env, R, st, xs) ==
  IF xs = <<>> THEN st ELSE
  LET n   == Len(xs)
      l   == R[xs[n]]
      stl == IF n = 1 THEN st.last ELSE xs[n - 1]
      S   == StdIdx(R, xs)
  IN [ start |-> IF st.last = 0 THEN xs[1] ELSE st.start,
       last  |-> xs[n],
       tc    |-> IF ~env.hasKey THEN st.tc
                 ELSE Plus(IF S = {} THEN st.tc ELSE R[xs[MaxOf(S)]].dec,
                           TrailingReversals(R, xs)),
       need  |-> ~l.failed /\ ~IsStdNull(l) /\ stl # 0 /\ R[IF stl = 0 THEN 1 ELSE stl].failed,
       next  |-> None ]

----------------------------------------------------------------------------
(* Cluster bookkeeping *)

NoIdx == -99   \* no register selected: a new one

CanAdd(cl) == Len(cl.regs) = 0 \/ cl.regs[Len(cl.regs)].start # 0
IsNew(cl, idx) == idx = NoIdx \/ idx = Len(cl.regs)

SelectFaults(cl, idx) ==
  IF IsNew(cl, idx)
  THEN IF CanAdd(cl) THEN {} ELSE {"NoStartReceiptForLastCashRegisterException"}
  ELSE IF idx < 0 \/ idx > Len(cl.regs) THEN {"InvalidCashRegisterIndexException"} ELSE {}

Grown(cl) == [cl EXCEPT !.regs = Append(@, BlankReg)]
Selected(cl, idx) == IF IsNew(cl, idx) THEN Grown(cl) ELSE cl
RegNo(cl, idx) == IF IsNew(cl, idx) THEN Len(cl.regs) + 1 ELSE idx + 1  \* 1-based
PrevStart(cl, n) == IF n > 1 THEN cl.regs[n - 1].start ELSE 0
=============================================================================
