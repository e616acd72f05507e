---------------------------- MODULE GenContainer ----------------------------
(***************************************************************************)
(* Key containers with entries that are in order or not, all combinations. *)
(***************************************************************************)
EXTENDS KeyMap, TLC, Json

CONSTANTS MaxEntries, MaxFlaws, Emit

\* how an entry deviates
Flaws == {"inner-missing", "inner-mistyped", "inner-differs", "inner-case",
          "dev-missing", "dev-mistyped", "dev-unknown", "dev-case", "dev-swapped",
          "mat-missing", "mat-mistyped", "mat-garbage", "mat-swapped", "mat-unusable", "mat-cut",
          "id-nohex", "id-empty", "id-sign", "id-space", "id-prefix",
          "entry-mistyped"}
Roots == {"ok", "map-missing", "map-mistyped", "root-mistyped"}
Kinds == {"cert", "key"}
\* some only are flaws of a certificate's entry
Fits(f, k) == f \in {"id-nohex", "id-empty", "id-sign", "id-space", "id-prefix"} => k = "cert"
Entries == [kind : Kinds, flaw : Flaws \cup {"-"}]

VARIABLES entries, root
vars == <<entries, root>>
Bad == {i \in DOMAIN entries : entries[i].flaw # "-"}

Init == /\ \E n \in 0..MaxEntries : entries \in [1..n -> {e \in Entries : Fits(e.flaw, e.kind)}]
        /\ root \in Roots
        /\ Cardinality(Bad) <= MaxFlaws
        /\ root # "ok" => Bad = {}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Plan == Emit => PrintT("PLAN " \o ToJson([entries |-> entries, root |-> root, ok |-> root = "ok" /\ Bad = {}]))
=============================================================================
