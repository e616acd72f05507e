------------------------------ MODULE GenTrust ------------------------------
(***************************************************************************)
(* All certificate chains of up to MaxLen certificates, with every link    *)
(* intact or broken and every certificate absent from the store, stored,   *)
(* stored as a bare key, or colliding with another stored certificate of   *)
(* the same serial. Each gives a plan with the verdict of RKSVCore.        *)
(***************************************************************************)
EXTENDS RKSVCore, Json, TLC

CONSTANTS MaxLen, Emit

Stats == {"absent", "stored", "bare", "collides"}
VARIABLES stats, links, done
vars == <<stats, links, done>>

\* certificate i has serial s<i>, key T<i>; it is signed by T<i+1> or, if its
\* link is broken, by somebody else
C(i) == [has |-> TRUE, serial |-> "s" \o ToString(i), fp |-> "f" \o ToString(i),
         key |-> "T" \o ToString(i),
         signer |-> IF i <= Len(links) /\ links[i] = "ok" THEN "T" \o ToString(i + 1) ELSE "TX"]
NoCert == [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None]

Entry(i) ==
  CASE stats[i] = "stored"   -> << [id |-> C(i).serial, key |-> C(i).key, cert |-> C(i)] >>
    [] stats[i] = "bare"     -> << [id |-> C(i).serial, key |-> C(i).key, cert |-> NoCert] >>
    [] stats[i] = "collides" -> << [id |-> C(i).serial, key |-> "TY",
                                    cert |-> [C(i) EXCEPT !.fp = "other", !.key = "TY"]] >>
    [] OTHER -> <<>>

RECURSIVE StoreTo(_)
StoreTo(i) == IF i = 0 THEN <<>> ELSE StoreTo(i - 1) \o Entry(i)

Env == [hasKey |-> FALSE, keyOK |-> FALSE, store |-> StoreTo(Len(stats))]
Grp == [cert |-> C(1), chain |-> [i \in 1..Len(stats) - 1 |-> C(i + 1)]]
F == CertFaults(Env, Grp)

Init == \E n \in 1..MaxLen : /\ stats \in [1..n -> Stats]
                             /\ links \in [1..n - 1 -> {"ok", "broken"}]
                             /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<stats, links>>
        /\ IF Emit THEN PrintT("PLAN " \o ToJson([stats |-> stats, links |-> links,
                                   ok |-> F = {}, faults |-> F])) ELSE TRUE
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* C07: accepted exactly if some certificate is the stored one and every link
\* before it is intact, no earlier one colliding
Reaches(k) == /\ stats[k] = "stored"
              /\ \A i \in 1..k - 1 : links[i] = "ok" /\ stats[i] \in {"absent", "bare"}
Meaning == (F = {}) <=> \E k \in DOMAIN stats : Reaches(k)
OneReason == Cardinality(F) <= 1
\* bare keys never matter
BareIrrelevant ==
  \A i \in DOMAIN stats : stats[i] = "bare" =>
    CertFaults([Env EXCEPT !.store = SelectSeq(@, LAMBDA e : e.cert.has)], Grp) = F
=============================================================================
