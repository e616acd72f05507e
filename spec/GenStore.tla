------------------------------ MODULE GenStore ------------------------------
(***************************************************************************)
(* Two key stores and every sequence of operations on them. Checked: each  *)
(* lookup gives what was last stored under the ID. Each behaviour is       *)
(* replayed on the real class.                                             *)
(***************************************************************************)
EXTENDS KeyMap, TLC, Json

CONSTANTS Ids,       \* names of IDs used with putKey and putPEMKey
          CertNames, \* certificates that may be stored
          MaxSteps, Reloads, Emit

IdOf(n) ==
  CASE n = "a" -> <<97>>          \* the serial of C1 and, negative, of CN
    [] n = "0A" -> <<48, 65>>     \* the same written otherwise
    [] n = "-a" -> <<45, 97>>
    [] n = "10" -> <<49, 48>>     \* the serial of C1 in decimal, of C2 in hex
    [] n = "S:1" -> <<83, 58, 49>>
    [] n = "zz" -> <<122, 122>>
    [] n = "none" -> <<>>
Certs == [C1 |-> [id |-> <<97>>, key |-> "K1"],
          C2 |-> [id |-> <<49, 48>>, key |-> "K2"],
          CN |-> [id |-> <<97>>, key |-> "K3"],   \* serial -10
          C1x |-> [id |-> <<97>>, key |-> "K2"]]  \* another one with serial 10
Keys == {"K1", "K2"}

VARIABLES st,      \* the two stores
          last,    \* per store: ID -> what was last stored, NoCert/"-" if gone
          script
vars == <<st, last, script>>

S == {1, 2}
Nothing == [key |-> "-", cert |-> NoCert]
AllIds == {IdOf(n) : n \in Ids} \cup {Certs[c].id : c \in CertNames}
            \cup {Filed(IdOf(n)) : n \in {m \in Ids : IsSerial(IdOf(m))}}

Init == st = [s \in S |-> {}] /\ last = [s \in S |-> [i \in AllIds |-> Nothing]] /\ script = <<>>

Room == Len(script) < MaxSteps
Do(op, s, n, k, c) == script' = Append(script, [op |-> op, s |-> s, id |-> n, key |-> k, cert |-> c])
Stored(s, id, k, c) ==
  /\ st' = [st EXCEPT ![s] = Put(@, id, k, c)]
  /\ last' = [last EXCEPT ![s][id] = [key |-> k, cert |-> c]]

PutKey(s, n, k) == Room /\ Stored(s, IdOf(n), k, NoCert) /\ Do("key", s, n, k, NoCert)
PutAs(s, n, c) == Room /\ Stored(s, IdOf(n), Certs[c].key, c) /\ Do("certas", s, n, Certs[c].key, c)
PutCert(s, c) == Room /\ Stored(s, Certs[c].id, Certs[c].key, c) /\ Do("cert", s, "none", Certs[c].key, c)
DelKey(s, n) ==
  /\ Room
  /\ st' = [st EXCEPT ![s] = Del(@, IdOf(n))]
  /\ last' = [last EXCEPT ![s][IdOf(n)] = Nothing]
  /\ Do("del", s, n, "-", NoCert)
\* store 2 becomes a copy of store 1
Copy ==
  /\ Room
  /\ st' = [st EXCEPT ![2] = st[1]] /\ last' = [last EXCEPT ![2] = last[1]]
  /\ Do("copy", 1, "none", "-", NoCert)
\* a store is saved and loaded again, if that is possible without two entries
\* under one ID
Reload(s, how) ==
  /\ Room
  /\ how = "json" => Loadable(st[s]) /\ \A x, y \in st[s] : LoadedId(x) = LoadedId(y) => x = y
  /\ LET out == IF how = "json" THEN {[x EXCEPT !.id = LoadedId(x)] : x \in st[s]} ELSE st[s] IN
     /\ st' = [st EXCEPT ![s] = out]
     /\ last' = [last EXCEPT ![s] = [i \in AllIds |->
           IF \E x \in out : x.id = i
           THEN LET x == CHOOSE y \in out : y.id = i IN [key |-> x.key, cert |-> x.cert]
           ELSE Nothing]]
  /\ Do(how, s, "none", "-", NoCert)

Next == \/ \E s \in S, n \in Ids, k \in Keys : PutKey(s, n, k)
        \/ \E s \in S, n \in Ids, c \in CertNames : PutAs(s, n, c)
        \/ \E s \in S, c \in CertNames : PutCert(s, c)
        \/ \E s \in S, n \in Ids : DelKey(s, n)
        \/ Copy
        \/ \E s \in S, how \in Reloads : Reload(s, how)
Spec == Init /\ [][Next]_vars

Maps == \A s \in S : IsStore(st[s])
Lookup(s, i) == IF \E x \in st[s] : x.id = i
                THEN LET x == CHOOSE y \in st[s] : y.id = i IN [key |-> x.key, cert |-> x.cert]
                ELSE Nothing
LastWins == \A s \in S, i \in AllIds : Lookup(s, i) = last[s][i]
SameKey == \A s \in S : \A x \in st[s] : x.cert # NoCert => Certs[x.cert].key = x.key
NormalForm == \A i \in AllIds : IsSerial(i) => Filed(Filed(i)) = Filed(i)
\* loading what was loaded changes nothing
LoadIdem == \A s \in S : LET t == {[x EXCEPT !.id = LoadedId(x)] : x \in st[s]} IN
               (Loadable(st[s]) /\ IsStore(t)) => IsLoaded(st[s], t) /\ IsLoaded(t, t)
Plan == (Emit /\ Len(script) = MaxSteps) => PrintT("PLAN " \o ToJson(script))
=============================================================================
