--------------------------- MODULE ScenarioJudge ---------------------------
(***************************************************************************)
(* Judges what was generated for scenario specifications. Case: [id, conf, *)
(* devs, ins, done, deps, recs, store, aes]:                               *)
(*  conf  closed, grouped, decimal, incl, company, box, size, aes          *)
(*  devs  per device: key (of the key material), fp, serial (of its        *)
(*        certificate), chain (number of certificates below it), failAt,   *)
(*        collide, omitSign, omitRoot                                      *)
(*  ins   instructions as in Scenario, with id, ts, a (stated amounts),    *)
(*        total (text or ""), over: deviations <<field, value>>            *)
(*  deps  cont, prev, total, groups of [cert, chain, n]                    *)
(*  recs  the receipts of all DEPs, in order: ok (readable), f (its        *)
(*        fields), hdr, sig, jws, kind, dec, width, failed, signer, hash,  *)
(*        regHash, open (the form of an open system's ZDA)                 *)
(*  store entries of the container: [id, key, cert]                        *)
(***************************************************************************)
EXTENDS Scenario, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, S
vars == <<c, k, S>>
Case == Cases[c]
Conf == Case.conf
Ins == Case.ins

Report(clause, exp, got) ==
  PrintT("MM " \o ToJson([case |-> Case.id, ev |-> k, clause |-> clause, exp |-> exp, got |-> got]))
Check(cond, clause, exp, got) == IF cond THEN TRUE ELSE Report(clause, exp, got)

Init == c \in 1..Len(Cases) /\ k = 1 /\ S = NoScenario

Dev(i) == Case.devs[i + 1]
Kid(i) == Conf.company \o "-K" \o ToString(i)
AllGroups == UNION {{<<d, g>> : g \in DOMAIN Case.deps[d].groups} : d \in DOMAIN Case.deps}

\* groups made by a device, as far as they are where they should be
GroupsOf(T, i) == {Case.deps[x[1]].groups[x[2]] : x \in {y \in AllGroups :
                     /\ y[1] \in DOMAIN T.deps /\ y[2] \in DOMAIN T.deps[y[1]].groups
                     /\ T.deps[y[1]].groups[y[2]].dev = i}}

\* the certificate that signs: known if it can be seen somewhere
Shown(T, i) == Conf.grouped /\ ~Dev(i).omitSign /\ GroupsOf(T, i) # {}
Leaf(T, i) == IF ~Conf.closed /\ Dev(i).chain = 0
              THEN [has |-> TRUE, serial |-> Dev(i).serial, fp |-> Dev(i).fp, key |-> Dev(i).key, signer |-> None, dec |-> Dev(i).decimal]
              ELSE IF Shown(T, i) THEN (CHOOSE g \in GroupsOf(T, i) : TRUE).cert
              ELSE [has |-> FALSE, serial |-> None, fp |-> None, key |-> None, signer |-> None, dec |-> None]
Entry(id) == {e \in Range(Case.store) : e.id = id}
LeafKey(T, i) == IF Conf.closed \/ Dev(i).chain = 0 THEN Dev(i).key
                 ELSE IF Shown(T, i) THEN Leaf(T, i).key
                 ELSE IF Conf.incl /\ Entry(Kid(i)) # {} THEN (CHOOSE e \in Entry(Kid(i)) : TRUE).key
                 ELSE None

----------------------------------------------------------------------------
(* One receipt *)

Over(i) == {x[1] : x \in Range(i.over)}
Value(i, f) == (CHOOSE x \in Range(i.over) : x[1] = f)[2]
\* what is said about a field: its deviation or else the regular value
States(i, r, f, v) == IF f \in Over(i) THEN r.f[f] = Value(i, f) ELSE r.f[f] = v

\* what follows a receipt that is not what was signed is left open
Altered(n) == Over(Ins[n]) \cap {"hdr", "sig", "jws"} # {}
Recounted(T, n) == \E m \in 1..n : T.recs[m].reg = T.recs[n].reg /\ Over(Ins[m]) \cap {"tc", "a1", "a2", "a3", "a4", "a5"} # {}
SizeOf(T, n) == LET ms == {m \in 1..n : T.recs[m].reg = T.recs[n].reg /\ "size" \in Over(Ins[m])} IN
                IF ms = {} THEN Conf.size ELSE Value(Ins[MaxOf(ms)], "size")

Amts == <<"a1", "a2", "a3", "a4", "a5">>
Receipt(T, n, r) ==
  LET i == Ins[n]  x == T.recs[n] IN
  IF "jws" \in Over(i) THEN Check(r.jws = Value(i, "jws"), "jws", i, r)
  ELSE IF ~r.ok THEN Report("unreadable", i, r)
  ELSE
  /\ Check(States(i, r, "alg", "R1"), "alg", i, r)
  /\ Check(States(i, r, "reg", Conf.box), "register", i, r)
  /\ Check(States(i, r, "id", i.id), "id", i, r)
  /\ Check(States(i, r, "ts", i.ts), "time", i, r)
  /\ \A a \in 1..5 : Check(States(i, r, Amts[a], i.a[a]), "amount", i, r)
  /\ Check("ctr" \in Over(i) => r.f.ctr = Value(i, "ctr"), "counter-text", i, r)
  /\ Check("ctr" \in Over(i) \/ r.kind = i.kind, "kind", i, r)
  /\ Check(i.kind = "STD" /\ "ctr" \notin Over(i) => r.width = SizeOf(T, n), "width", i, r)
  /\ Check(i.kind = "STD" /\ "ctr" \notin Over(i) /\ "tc" \notin Over(i) /\ ~Recounted(T, n) => r.dec = x.tc, "counter", x, r)
  /\ Check(i.kind = "STD" /\ "ctr" \notin Over(i) /\ "tc" \in Over(i) => r.dec = Value(i, "tc"), "counter", x, r)
  /\ Check(IF "chain" \in Over(i) THEN r.f.chain = Value(i, "chain")
           ELSE IF x.pred = 0 THEN r.f.chain = r.regHash
           ELSE Altered(x.pred) \/ r.f.chain = Case.recs[x.pred].hash, "chain", x, r)
  /\ Check(IF "zda" \in Over(i) THEN r.f.zda = Value(i, "zda")
           ELSE IF Conf.closed THEN r.f.zda = "AT0"
           ELSE r.open /\ \A m \in 1..(n - 1) : Ins[m].dev = i.dev /\ Over(Ins[m]) \cap {"zda", "jws"} = {}
                                                => Case.recs[m].f.zda = r.f.zda, "zda", i, r)
  /\ Check(IF "serial" \in Over(i) THEN r.f.serial = Value(i, "serial")
           ELSE IF Conf.closed THEN r.f.serial = Kid(i.dev)
           ELSE IF Leaf(T, i.dev).has
                THEN r.f.serial = IF Conf.decimal THEN Leaf(T, i.dev).dec ELSE Leaf(T, i.dev).serial
           ELSE \A m \in 1..(n - 1) : Ins[m].dev = i.dev /\ Over(Ins[m]) \cap {"serial", "jws"} = {}
                                      => Case.recs[m].f.serial = r.f.serial, "serial", Leaf(T, i.dev), r)
  /\ Check("hdr" \in Over(i) => r.hdr = Value(i, "hdr"), "header", i, r)
  /\ Check(IF "sig" \in Over(i) THEN r.sig = Value(i, "sig")
           ELSE r.failed = (i.sig = "failed"), "failure-marker", i, r)
  /\ Check(i.sig = "ok" /\ Over(i) \cap {"hdr", "sig"} = {} /\ LeafKey(T, i.dev) # None => r.signer = LeafKey(T, i.dev),
           "signature", LeafKey(T, i.dev), r)

----------------------------------------------------------------------------
(* DEPs and groups *)

Numbers(d) == [g \in DOMAIN d.groups |-> d.groups[g].n]

GroupCert(T, i, g) ==
  LET d == Dev(i)  all == <<g.cert>> \o g.chain  L == Len(all) IN
  IF ~Conf.grouped \/ d.omitSign THEN Check(~g.cert.has /\ g.chain = <<>>, "certificate-shown", d, g)
  ELSE IF ~g.cert.has THEN Report("no-certificate", d, g)
  ELSE IF Conf.closed
  THEN Check(g.cert.key = d.key /\ g.cert.signer = d.key /\ g.chain = <<>>, "certificate", d, g)
  ELSE /\ Check(L = d.chain + 1, "chain-length", d, g)
       /\ Check(all[L].fp = d.fp, "root", d, g)
       /\ \A j \in 1..(L - 1) : Check(all[j].signer = all[j + 1].key <=> d.failAt # j, "link", <<d, j>>, g)

\* A known defect of the code: it does not go to the new register when one
\* begins, but to the one after that which was told last, so that later DEPs
\* refer to the wrong one. x: cur, last (DEP of each register), start, deps
SlipFirst == [cur |-> 0, last |-> <<0>>, start |-> 0, deps |-> <<Absent>>]
Slip(x, i) ==
  IF i.new = "no" THEN x
  ELSE LET n == Len(x.deps) - 1
           last == [x.last EXCEPT ![x.cur + 1] = n] IN
       IF i.new = "cluster"
       THEN [cur |-> x.cur + 1, last |-> Append(last, n + 1), start |-> n + 1, deps |-> Append(x.deps, x.start)]
       ELSE IF i.cont # Absent
       THEN [x EXCEPT !.cur = i.cont, !.last = last, !.deps = Append(@, last[i.cont + 1])]
       ELSE [x EXCEPT !.last = last, !.deps = Append(@, n)]
RECURSIVE Slipped(_, _)
Slipped(x, is) == IF is = <<>> THEN x.deps ELSE Slipped(Slip(x, Head(is)), Tail(is))

Structure(T) ==
  LET want == [d \in DOMAIN T.deps |-> [cont |-> T.deps[d].cont, prev |-> T.deps[d].prev,
                                        groups |-> [g \in DOMAIN T.deps[d].groups |-> Len(T.deps[d].groups[g].recs)]]]
      got == [d \in DOMAIN Case.deps |-> [cont |-> Case.deps[d].cont, prev |-> Case.deps[d].prev,
                                          groups |-> Numbers(Case.deps[d])]]
      last(d) == LET gs == T.deps[d].groups IN gs[Len(gs)].recs[Len(gs[Len(gs)].recs)] IN
  /\ Check(Len(want) = Len(got) /\ \A d \in DOMAIN want : want[d].groups = got[d].groups, "distribution", want, got)
  /\ Check([d \in DOMAIN want |-> <<want[d].cont, want[d].prev>>] = [d \in DOMAIN got |-> <<got[d].cont, got[d].prev>>],
           IF [d \in DOMAIN got |-> <<got[d].cont, got[d].prev>>]
                = [d \in DOMAIN want |-> <<want[d].cont, Slipped(SlipFirst, Ins)[d]>>]
           THEN "references-slip" ELSE "references", want, got)
  /\ Len(want) = Len(got) => \A d \in DOMAIN want :
       /\ Check(Case.deps[d].total = Ins[last(d)].total, "total", Ins[last(d)].total, Case.deps[d].total)
       /\ \A g \in DOMAIN want[d].groups : g \in DOMAIN Case.deps[d].groups =>
            IF Conf.grouped THEN GroupCert(T, T.deps[d].groups[g].dev, Case.deps[d].groups[g])
            ELSE GroupCert(T, 0, Case.deps[d].groups[g])
  \* a device shows the same certificates every time
  /\ \A i \in 0..(Len(Case.devs) - 1) :
       Check(Cardinality({<<g.cert, g.chain>> : g \in GroupsOf(T, i)}) <= 1, "certificates-differ", i, GroupsOf(T, i))

----------------------------------------------------------------------------
(* The container *)

NDev == Len(Case.devs)
WithRoot == {i \in 0..(NDev - 1) : ~Dev(i).omitRoot /\ (~Conf.closed \/ Conf.grouped)}
WithKey == IF Conf.closed \/ Conf.incl THEN 0..(NDev - 1) ELSE {}

\* the entry of the trusted certificate of device i; one not seen is left open
RootOf(T, i) ==
  IF Conf.closed
  THEN {e \in Range(Case.store) : e.cert.has /\ e.key = (IF Dev(i).collide THEN e.key ELSE Dev(i).key)
          /\ (Shown(T, i) => e.id = Leaf(T, i).serial /\ (e.cert.fp = Leaf(T, i).fp <=> ~Dev(i).collide))}
  ELSE IF Dev(i).collide
  THEN {e \in Range(Case.store) : e.cert.has /\ e.cert.fp # Dev(i).fp
          /\ (Leaf(T, i).has => e.id = Leaf(T, i).serial /\ e.cert.fp # Leaf(T, i).fp /\ e.key # Leaf(T, i).key)}
  ELSE {e \in Range(Case.store) : e.id = Dev(i).serial /\ e.cert.has /\ e.cert.fp = Dev(i).fp}

Container(T) ==
  /\ Check(Case.aes = Conf.aes, "aes-key", Conf.aes, Case.aes)
  /\ \A i \in WithRoot : Check(RootOf(T, i) # {}, "root-entry", Dev(i), Case.store)
  /\ \A i \in WithKey : Check({e \in Entry(Kid(i)) : ~e.cert.has /\ (LeafKey(T, i) # None => e.key = LeafKey(T, i))} # {},
                              "key-entry", Kid(i), Case.store)
  /\ Check(\A e \in Range(Case.store) : (\E i \in WithKey : e.id = Kid(i)) \/ (\E i \in WithRoot : e \in RootOf(T, i)),
           "other-entry", Conf, Case.store)
  /\ Check(Cardinality({e.id : e \in Range(Case.store)}) = Len(Case.store), "entries", Conf, Case.store)

----------------------------------------------------------------------------
Next ==
  /\ k <= Len(Ins) + 1
  /\ k' = k + 1 /\ UNCHANGED c
  /\ IF k <= Len(Ins) THEN S' = Tell(S, Ins[k], Conf.grouped)
     ELSE /\ S' = S
          /\ IF ~Case.done THEN Report("refused", TRUE, Case.exc)
             ELSE /\ Structure(S)
                  /\ Container(S)
                  /\ IF Len(Case.recs) # Len(Ins) THEN Report("receipts", Len(Ins), Len(Case.recs))
                     ELSE \A n \in DOMAIN Ins : Receipt(S, n, Case.recs[n])
Spec == Init /\ [][Next]_vars
=============================================================================
