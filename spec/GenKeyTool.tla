----------------------------- MODULE GenKeyTool -----------------------------
(***************************************************************************)
(* A key store file and every sequence of commands on it, some of which    *)
(* cannot be done. Checked: a command that fails leaves the file, a query  *)
(* does too, and the symmetric key and the other entries stay.             *)
(***************************************************************************)
EXTENDS KeyMap, TLC, Json

CONSTANTS Cmds, MaxSteps, Emit

Id(n) == CASE n = "a" -> <<97>> [] n = "0A" -> <<48, 65>> [] n = "S:1" -> <<83, 58, 49>> [] OTHER -> <<>>
CertId(c) == CASE c = "C2" -> <<49, 48>> [] OTHER -> <<97>>
CertKey(c) == CASE c = "C1" -> "K1" [] c = "C2" -> "K2" [] c = "CN" -> "K3" [] OTHER -> "-"

\* [cmd, id, key, cert, arg]
Command(n) ==
  CASE n = "create" -> [cmd |-> "create", id |-> "", what |-> "", arg |-> "good"]
    [] n = "list" -> [cmd |-> "list", id |-> "", what |-> "", arg |-> "good"]
    [] n = "add-C1" -> [cmd |-> "addcert", id |-> "", what |-> "C1", arg |-> "good"]
    [] n = "add-C2" -> [cmd |-> "addcert", id |-> "", what |-> "C2", arg |-> "good"]
    [] n = "add-CN" -> [cmd |-> "addcert", id |-> "", what |-> "CN", arg |-> "good"]
    [] n = "add-bad" -> [cmd |-> "addcert", id |-> "", what |-> "C1", arg |-> "bad"]
    [] n = "key-a" -> [cmd |-> "addkey", id |-> "a", what |-> "K2", arg |-> "good"]
    [] n = "key-0A" -> [cmd |-> "addkey", id |-> "0A", what |-> "K1", arg |-> "good"]
    [] n = "key-S" -> [cmd |-> "addkey", id |-> "S:1", what |-> "K1", arg |-> "good"]
    [] n = "key-bad" -> [cmd |-> "addkey", id |-> "a", what |-> "K1", arg |-> "bad"]
    [] n = "del-a" -> [cmd |-> "del", id |-> "a", what |-> "", arg |-> "good"]
    [] n = "del-0A" -> [cmd |-> "del", id |-> "0A", what |-> "", arg |-> "good"]
    [] n = "del-S" -> [cmd |-> "del", id |-> "S:1", what |-> "", arg |-> "good"]
    [] n = "set" -> [cmd |-> "setaes", id |-> "", what |-> "A1", arg |-> "good"]
    [] n = "set2" -> [cmd |-> "setaes", id |-> "", what |-> "A2", arg |-> "good"]
    [] n = "set-none" -> [cmd |-> "setaes", id |-> "", what |-> "", arg |-> "good"]
    [] n = "set-bad" -> [cmd |-> "setaes", id |-> "", what |-> "A1", arg |-> "bad"]
    [] n = "unset" -> [cmd |-> "delaes", id |-> "", what |-> "", arg |-> "good"]
    [] n = "show" -> [cmd |-> "showaes", id |-> "", what |-> "", arg |-> "good"]
    [] n = "export" -> [cmd |-> "export", id |-> "", what |-> "", arg |-> "good"]
    [] n = "import" -> [cmd |-> "import", id |-> "", what |-> "", arg |-> "good"]
    [] n = "import-bad" -> [cmd |-> "import", id |-> "", what |-> "", arg |-> "bad"]
    [] n = "usage" -> [cmd |-> "usage", id |-> "", what |-> "", arg |-> "good"]
    \* not commands: somebody removes or spoils the file
    [] n = "lost" -> [cmd |-> "lost", id |-> "", what |-> "", arg |-> "good"]
    [] n = "spoilt" -> [cmd |-> "spoilt", id |-> "", what |-> "", arg |-> "good"]

VARIABLES file,   \* [kind: none/bad/store, store, aes]
          script, okays
vars == <<file, script, okays>>

Init == file = [kind |-> "none", store |-> {}, aes |-> "-"] /\ script = <<>> /\ okays = <<>>

Fresh == {"create", "import"}
Does(x) == /\ x.arg = "good"
           /\ x.cmd \in Fresh \cup {"usage", "lost", "spoilt"} \/ file.kind = "store"
After(x) ==
  CASE x.cmd = "create" -> [kind |-> "store", store |-> {}, aes |-> "-"]
    \* what is imported: a bare key
    [] x.cmd = "import" -> [kind |-> "store", store |-> Put({}, Id("S:1"), "K2", NoCert), aes |-> "-"]
    [] x.cmd = "addcert" -> [file EXCEPT !.store = Put(@, CertId(x.what), CertKey(x.what), x.what)]
    [] x.cmd = "addkey" -> [file EXCEPT !.store = Put(@, Id(x.id), x.what, NoCert)]
    [] x.cmd = "del" -> [file EXCEPT !.store = Del(@, Id(x.id))]
    [] x.cmd = "setaes" -> IF x.what = "" THEN file ELSE [file EXCEPT !.aes = x.what]
    [] x.cmd = "delaes" -> [file EXCEPT !.aes = "-"]
    [] x.cmd = "lost" -> [kind |-> "none", store |-> {}, aes |-> "-"]
    [] x.cmd = "spoilt" -> [kind |-> "bad", store |-> {}, aes |-> "-"]
    [] OTHER -> file
Run(n) ==
  /\ Len(script) < MaxSteps
  /\ LET x == Command(n) IN
     /\ file' = IF Does(x) THEN After(x) ELSE file
     /\ script' = Append(script, x)
     /\ okays' = Append(okays, Does(x))
Next == \E n \in Cmds : Run(n)
Spec == Init /\ [][Next]_vars

StoreIsMap == IsStore(file.store) /\ (file.kind # "store" => file.store = {} /\ file.aes = "-")
FailKeeps == [][~okays'[Len(okays')] => file' = file]_vars
\* only what was addressed changes
Local == [][LET x == script'[Len(script')] IN
            (file.kind = "store" /\ file'.kind = "store" /\ x.cmd \notin Fresh) =>
              /\ x.cmd \notin {"setaes", "delaes"} => file'.aes = file.aes
              /\ \A y \in file.store :
                   \/ y \in file'.store
                   \/ (x.cmd = "addcert" /\ y.id = CertId(x.what))
                   \/ (x.cmd \in {"addkey", "del"} /\ y.id = Id(x.id))]_vars
Plan == (Emit /\ Len(script) = MaxSteps) => PrintT("PLAN " \o ToJson([script |-> script, ok |-> okays]))
=============================================================================
