------------------------------ MODULE GenKeys -------------------------------
(***************************************************************************)
(* Key selection for one receipt: system type, the certificate of its      *)
(* group, what is stored under the two key IDs its designation can mean,   *)
(* and who really signed it. Gives a plan with the verdict of RKSVCore for *)
(* every combination.                                                      *)
(***************************************************************************)
EXTENDS RKSVCore, Json, TLC

CONSTANTS Emit

VARIABLES p, done
vars == <<p, done>>

Contents == {"none", "key1", "key2", "cert1", "cert2"}
Plans == [closed : BOOLEAN,
          group  : {"none", "hex", "dec", "other"},  \* which serial the group's certificate has
          hex    : Contents,  \* stored under the hexadecimal reading / the key ID
          dec    : Contents,  \* stored under the decimal reading
          signer : {"K1", "K2", "KX", "-", "failed"}]
Sensible(q) == q.closed => q.dec = "none" /\ q.group \in {"none", "other"}

NoCert == [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None]
Crt(id, k) == [has |-> TRUE, serial |-> id, fp |-> "f" \o id \o k, key |-> k, signer |-> k]

Ent(id, c) == CASE c = "none" -> <<>>
                [] c \in {"key1", "key2"} -> << [id |-> id, key |-> IF c = "key1" THEN "K1" ELSE "K2",
                                               cert |-> NoCert] >>
                [] OTHER -> LET k == IF c = "cert1" THEN "K1" ELSE "K2" IN
                            << [id |-> id, key |-> k, cert |-> Crt(id, k)] >>

\* the group certificate (of K1) is signed by an anchor that is stored
GCert == CASE p.group = "none" -> NoCert
           [] p.group = "hex" -> [Crt("H", "K1") EXCEPT !.signer = "KA", !.fp = "g"]
           [] p.group = "dec" -> [Crt("D", "K1") EXCEPT !.signer = "KA", !.fp = "g"]
           [] OTHER -> [Crt("O", "K1") EXCEPT !.signer = "KA", !.fp = "g"]
Anchor == Crt("A", "KA")
Env == [hasKey |-> FALSE, keyOK |-> FALSE,
        store |-> Ent("H", p.hex) \o Ent("D", p.dec)
                  \o << [id |-> "A", key |-> "KA", cert |-> Anchor] >>]
Grp == [cert |-> GCert, chain |-> IF GCert.has THEN <<Anchor>> ELSE <<>>]

Rec == [ hash |-> "h", regHash |-> "HREG", reg |-> "REG", id |-> "1", ts |-> 1,
         zda |-> IF p.closed THEN "AT0" ELSE "AT1", kind |-> "STD",
         amt |-> <<Zero, Zero, Zero, Zero, Zero>>, chain |-> "HREG", dec |-> Zero,
         failed |-> p.signer = "failed",
         signer |-> IF p.signer \in {"K1", "K2", "KX"} THEN p.signer ELSE None,
         serial |-> "H", asHex |-> IF p.closed THEN None ELSE "H",
         asDec |-> IF p.closed THEN None ELSE "D", malf |-> <<>> ]

CF == CertFaults(Env, Grp)
SF == SigFaults(Env, Grp, Rec)
F == IF CF # {} THEN CF ELSE Faults(Env, Grp, <<Rec>>, BlankReg, 0, {}, 1)

Init == p \in {q \in Plans : Sensible(q)} /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED p
        /\ IF Emit THEN PrintT("PLAN " \o ToJson([p |-> p, ok |-> F = {}, faults |-> F,
                                   later |-> IF CF # {} THEN CF ELSE SF])) ELSE TRUE
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C06: acceptance implies that the designated key signed this very content
OnlyAuthentic ==
  (F = {}) => /\ Rec.signer # None
              /\ \/ GCert.has /\ Rec.signer = GCert.key
                 \/ ~GCert.has /\ \E i \in DOMAIN Env.store :
                      /\ Env.store[i].id \in (IF p.closed THEN {Rec.serial} ELSE {Rec.asHex, Rec.asDec})
                      /\ Env.store[i].key = Rec.signer
CertWins == (GCert.has /\ SF = {} /\ p.signer # "failed") => Rec.signer = "K1"
AuthenticAccepted ==
  (CF = {} /\ SelectKey(Env, Grp, Rec) = Rec.signer /\ Rec.signer # None) => F = {}
=============================================================================
