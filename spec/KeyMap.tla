------------------------------- MODULE KeyMap -------------------------------
(***************************************************************************)
(* The key store as a map: what storing, replacing, deleting, saving and   *)
(* loading have to do. An ID is a sequence of code points. A store is a    *)
(* set of entries [id, key, cert], at most one per ID; key and cert are    *)
(* names, cert is NoCert for a bare public key.                            *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt, FiniteSets, Integers

NoCert == "-"

Digit(ch) == ch >= 48 /\ ch <= 57
Hex(ch) == Digit(ch) \/ (ch >= 65 /\ ch <= 70) \/ (ch >= 97 /\ ch <= 102)
Low(ch) == IF ch >= 65 /\ ch <= 70 THEN ch + 32 ELSE ch

\* a certificate's serial as it may be written: hexadecimal, with a sign
Unsigned(id) == IF id # <<>> /\ id[1] = 45 THEN Tail(id) ELSE id
IsSerial(id) == LET u == Unsigned(id) IN u # <<>> /\ \A i \in DOMAIN u : Hex(u[i])
RECURSIVE DropZeros(_)
DropZeros(u) == IF Len(u) > 1 /\ u[1] = 48 THEN DropZeros(Tail(u)) ELSE u
\* the ID it is filed under: lower case, no sign, no leading zeros
Filed(id) == LET u == Unsigned(id) IN DropZeros([i \in DOMAIN u |-> Low(u[i])])

IdsOf(store) == {x.id : x \in store}
IsStore(store) == \A x, y \in store : x.id = y.id => x = y

Del(store, id) == {x \in store : x.id # id}
Put(store, id, key, cert) == Del(store, id) \cup {[id |-> id, key |-> key, cert |-> cert]}

-----------------------------------------------------------------------------
(* The container                                                           *)

LoadedId(x) == IF x.cert = NoCert THEN x.id ELSE Filed(x.id)
Loadable(store) == \A x \in store : x.cert = NoCert \/ IsSerial(x.id)
\* what loading a saved store may give: where two entries end up under one
\* ID either may win
IsLoaded(store, out) ==
  /\ IsStore(out)
  /\ IdsOf(out) = {LoadedId(x) : x \in store}
  /\ \A y \in out : \E x \in store : LoadedId(x) = y.id /\ x.key = y.key /\ x.cert = y.cert

\* a container as it was given: an entry is [outer, inner, dev, mat, key, cert];
\* inner: the inner ID, <<-1>> if missing, <<-2>> if not a string
\* dev: CERTIFICATE, PUBLIC_KEY, "missing", "other", "mistyped"
\* mat: cert, key, "missing", "mistyped", "garbage", "unusable"
EntryOK(x) ==
  /\ x.inner = x.outer
  /\ \/ x.dev = "CERTIFICATE" /\ x.mat = "cert" /\ IsSerial(x.outer)
     \/ x.dev = "PUBLIC_KEY" /\ x.mat = "key"
ContainerOK(root, entries) ==
  root = "ok" /\ \A i \in DOMAIN entries : EntryOK(entries[i])
StoreOf(entries) ==
  {[id |-> entries[i].outer, key |-> entries[i].key, cert |-> entries[i].cert] : i \in DOMAIN entries}
=============================================================================
