------------------------------ MODULE DepFlaws ------------------------------
(***************************************************************************)
(* Every way a small DEP document can deviate from the prescribed form in  *)
(* one place (or two): the places are computed from the document.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Certs, Orders, MaxRecs, MaxGroups, TwoFlaws, Emit

Shapes == [o : Orders, c : Certs, n : 1..MaxRecs]

F(w, g, e, i) == [w |-> w, g |-> g, e |-> e, i |-> i]

RootFlaws == {F("json", 0, e, 0) : e \in {"empty", "cut", "trail", "garbage", "utf8"}}
             \cup {F("type", 0, "root", 0), F("missing", 0, "groups", 0),
                   F("type", 0, "groups", 0), F("dup", 0, "root", 0), F("empty", 0, "groups", 0)}
GroupFlaws(sh, g) ==
  {F("type", g, "group", 0)}
  \cup {F("missing", g, e, 0) : e \in {"S", "Z", "R"}}
  \cup {F("type", g, e, 0) : e \in {"S", "Z", "R"}}
  \cup {F("dup", g, e, i) : e \in {"S", "Z", "R"}, i \in 0..1}
  \cup {F("cert", g, "S", 0)}
  \cup {F("item", g, "R", i) : i \in 1..sh[g].n}
  \cup (IF sh[g].c = "chain" THEN {F("item", g, "Z", 1), F("cert", g, "Z", 1)} ELSE {})

Flaws(sh) == RootFlaws \cup UNION {GroupFlaws(sh, g) : g \in DOMAIN sh}

VARIABLES shape, flaws, done
vars == <<shape, flaws, done>>

Rooted(f) == f.g = 0
Init == /\ \E n \in 1..MaxGroups : shape \in [1..n -> Shapes]
        /\ \/ flaws \in {{f} : f \in Flaws(shape)}
           \/ /\ TwoFlaws
              /\ \E a, b \in Flaws(shape) :
                   /\ ~Rooted(a) /\ ~Rooted(b)
                   /\ <<a.g, a.e>> # <<b.g, b.e>>
                   /\ a.e # "group" /\ b.e # "group"
                   /\ flaws = {a, b}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<shape, flaws>>
        /\ (Emit => PrintT("PLAN " \o ToJson([shape |-> shape, flaws |-> flaws])))
Spec == Init /\ [][Next]_vars

\* there is a flaw in every plan, and every place is inside the document
Sane == /\ flaws # {}
        /\ \A f \in flaws : f.g \in 0..Len(shape)
=============================================================================
