----------------------------- MODULE StoreJudge -----------------------------
(***************************************************************************)
(* Judges recorded operations on key stores and key store files against    *)
(* KeyMap. A case: [id, evs]. Events:                                      *)
(*  api: op on store s, then what both stores hold                         *)
(*     t: new | key | cert | certas | del | copy | json | ini              *)
(*     s, id, key, cert; ok, lib (the exception was a parse exception);    *)
(*     get: the two stores after it, [id, key, cert] by looking up every   *)
(*          listed ID; miss: IDs that are not listed but found             *)
(*  load: a container, root, entries; ok, lib, out                         *)
(*  aes: a key put into a container and read back: want, got               *)
(*  cli: a command on a key store file; cmd, args...; ok, before, after,   *)
(*       shown                                                             *)
(***************************************************************************)
EXTENDS KeyMap, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, e, st
vars == <<c, e, st>>

Case == Cases[c]
Ev == Case.evs[e]

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> e, clause |-> clause, exp |-> exp, got |-> got]))
Say(clause, exp, got) == IF clause = "" THEN TRUE ELSE Report(clause, exp, got)

Set(s) == {s[i] : i \in DOMAIN s}
Ops == {"key", "cert", "certas", "del", "copy", "json", "ini"}

\* what the operation asks for
Want ==
  LET s == Ev.s IN
  CASE Ev.t \in {"key", "cert", "certas"} -> [st EXCEPT ![s] = Put(@, Ev.id, Ev.key, Ev.cert)]
    [] Ev.t = "del" -> [st EXCEPT ![s] = Del(@, Ev.id)]
    [] Ev.t = "copy" -> [st EXCEPT ![2] = st[1]]
    [] OTHER -> st

ApiFault ==
  LET get == [s \in {1, 2} |-> Set(Ev.get[s])] IN
  IF Ev.miss # <<>> THEN "found-unlisted"
  ELSE IF \E s \in {1, 2} : Len(Ev.get[s]) # Cardinality(IdsOf(get[s])) THEN "listed-twice"
  ELSE IF Ev.t = "json"
  THEN IF ~Loadable(st[Ev.s])
       THEN IF Ev.ok THEN "unusable-id-accepted" ELSE IF ~Ev.lib THEN "foreign-exception"
            ELSE IF get # st THEN "failed-op-changed-store" ELSE ""
       ELSE IF ~Ev.ok THEN "reload-failed"
       ELSE IF get[3 - Ev.s] # st[3 - Ev.s] THEN "other-store-changed"
       ELSE IF ~IsLoaded(st[Ev.s], get[Ev.s]) THEN "reload-differs" ELSE ""
  ELSE IF ~Ev.ok THEN "op-failed"
  ELSE IF get = Want THEN ""
  ELSE IF Ev.t # "copy" /\ get[3 - Ev.s] # st[3 - Ev.s] THEN "other-store-changed"
  ELSE IF Ev.t = "ini" THEN "reload-differs" ELSE "lookup-" \o Ev.t

LoadFault ==
  IF ContainerOK(Ev.root, Ev.entries)
  THEN IF ~Ev.ok THEN "container-rejected"
       ELSE IF ~IsLoaded(StoreOf(Ev.entries), Set(Ev.out)) THEN "container-differs" ELSE ""
  ELSE IF Ev.ok THEN "bad-container-accepted"
       ELSE IF ~Ev.lib THEN "foreign-exception" ELSE ""

-----------------------------------------------------------------------------
(* The command line tool. file: [there, good, store, aes]; NoFile if none. *)
(* A file is seen as [there, good, raw, store, aes]: raw names its bytes.  *)

FileStore(f) == {[x EXCEPT !.id = LoadedId(x)] : x \in Set(f.store)}
Now == [there |-> Ev.after.there, good |-> Ev.after.good, store |-> Set(Ev.after.store), aes |-> Ev.after.aes]
IsFile(store, aes) ==
  /\ Ev.after.there /\ Ev.after.good /\ Ev.after.aes = aes
  /\ LET now == Set(Ev.after.store) IN
     /\ Len(Ev.after.store) = Cardinality(now)
     /\ IsLoaded(store, now)
Same == Ev.before.raw = Ev.after.raw
Readable == Ev.before.there /\ Ev.before.good /\ Loadable(Set(Ev.before.store))
\* entries of a file under one ID are not made by the tool
Old == FileStore(Ev.before)
Fresh == {"create", "import"}

\* whether the command can be done
Possible ==
  /\ Ev.cmd \in Fresh \/ Readable
  /\ Ev.arg = "good"

CliFault ==
  IF Ev.cmd = "usage" THEN IF Same THEN "" ELSE "usage-changed-file"
  ELSE IF Ev.planned # "" /\ Ev.planned # (IF Possible THEN "yes" ELSE "no") /\ Ev.ok = Possible THEN "plan"
  ELSE IF ~Possible
  THEN IF Ev.ok THEN "impossible-command-succeeded" ELSE IF ~Same THEN "failing-command-changed-file" ELSE ""
  ELSE IF ~Ev.ok THEN "command-failed"
  ELSE CASE Ev.cmd = "create" -> IF IsFile({}, "-") THEN "" ELSE "create"
         [] Ev.cmd = "import" -> IF IsFile(Set(Ev.input), "-") THEN "" ELSE "import"
         [] Ev.cmd = "addcert" -> IF IsFile(Put(Old, Ev.id, Ev.key, Ev.cert), Ev.before.aes) THEN "" ELSE "add-cert"
         [] Ev.cmd = "addkey" -> IF IsFile(Put(Old, Ev.id, Ev.key, NoCert), Ev.before.aes) THEN "" ELSE "add-key"
         [] Ev.cmd = "del" -> IF IsFile(Del(Old, Ev.id), Ev.before.aes) THEN "" ELSE "del"
         [] Ev.cmd = "setaes" -> IF Ev.aes = "" THEN IF Same THEN "" ELSE "set-nothing"
                                 ELSE IF IsFile(Old, Ev.aes) THEN "" ELSE "set-symmetric"
         [] Ev.cmd = "delaes" -> IF IsFile(Old, "-") THEN "" ELSE "del-symmetric"
         [] Ev.cmd = "showaes" -> IF ~Same THEN "show-changed-file"
                                  ELSE IF Ev.aes = Ev.before.aes THEN "" ELSE "show-symmetric"
         [] Ev.cmd = "list" -> IF ~Same THEN "list-changed-file"
                               ELSE IF Len(Ev.ids) = Cardinality(Old) /\ Set(Ev.ids) = IdsOf(Old) THEN "" ELSE "list"
         [] Ev.cmd = "export" -> IF ~Same THEN "export-changed-file"
                                 ELSE IF Len(Ev.input) = Cardinality(Old) /\ Set(Ev.input) = Old THEN "" ELSE "export"

Fault ==
  CASE Ev.t = "new" -> ""
    [] Ev.t \in Ops -> ApiFault
    [] Ev.t = "load" -> LoadFault
    [] Ev.t = "aes" -> IF Ev.want = Ev.got THEN "" ELSE "symmetric-key"
    [] Ev.t = "cli" -> CliFault

Init == c \in 1..Len(Cases) /\ e = 1 /\ st = <<{}, {}>>
Next ==
  /\ e <= Len(Case.evs)
  /\ Say(Fault, IF Ev.t \in Ops THEN st ELSE <<>>, Ev)
  \* go on from what is there
  /\ st' = IF Ev.t \in Ops \cup {"new"} THEN <<Set(Ev.get[1]), Set(Ev.get[2])>> ELSE st
  /\ e' = e + 1
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
