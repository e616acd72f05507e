---------------------------- MODULE RegisterCore ----------------------------
(***************************************************************************)
(* A cash register: what a requested receipt has to look like and how the  *)
(* register goes on. Receipts are as in RKSVCore.                          *)
(*                                                                         *)
(* A register is [reg, regHash, last, tc, size, lim]: its ID, the index of *)
(* its last receipt (in a cluster at first the start receipt of the        *)
(* register before), its counter, the bytes used for it and the first      *)
(* number (in cents) that does not fit into them.                          *)
(* A request is [id, ts, kind, amt, zda, serial, key]; dev tells whether   *)
(* the device signs ("ok"), marks a failure ("failed") or raises.          *)
(***************************************************************************)
EXTENDS RKSVCore

Fits(n, lim) == ~Neg(Minus(Minus(lim, Num(1)), n)) /\ ~Neg(Plus(n, lim))

Sum(req) == SumSeq(req.amt)
NextCounter(g, req) == IF req.kind = "DUM" THEN g.tc ELSE Plus(g.tc, Sum(req))
\* only an encrypted counter has to fit
Possible(g, req) == req.kind = "STD" => Fits(NextCounter(g, req), g.lim)

ChainOfReg(R, g) == IF g.last = 0 THEN g.regHash ELSE R[g.last].hash

\* what is not as requested in a receipt r
DataFaults(R, g, req, dev, r) ==
  (IF r.malf # <<>> THEN {"unreadable"} ELSE {})
  \cup (IF r.reg # g.reg THEN {"register"} ELSE {})
  \cup (IF r.id # req.id THEN {"id"} ELSE {})
  \cup (IF r.ts # req.ts THEN {"time"} ELSE {})
  \cup (IF r.kind # req.kind THEN {"kind"} ELSE {})
  \cup (IF r.amt # req.amt THEN {"amounts"} ELSE {})
  \cup (IF r.zda # req.zda THEN {"zda"} ELSE {})
  \cup (IF r.serial # req.serial THEN {"serial"} ELSE {})
  \cup (IF r.failed # (dev = "failed") THEN {"failure-marker"} ELSE {})
  \cup (IF dev = "ok" /\ r.signer # req.key THEN {"signature"} ELSE {})
  \cup (IF r.chain # ChainOfReg(R, g) THEN {"chain"} ELSE {})
  \cup (IF req.kind = "STD" /\ r.dec # NextCounter(g, req) THEN {"counter"} ELSE {})

\* the register after receipt x
Advance(g, req, x) == [g EXCEPT !.last = x, !.tc = NextCounter(g, req)]

\* rules the one who asks for receipts has to keep
Allowed(env, g, R, st, ps, used, x) ==
  LET r == R[x] IN
  /\ RestoreFaults(env, g, st, r) = {}
  /\ First(st) => ~r.failed /\ IsNull(r) /\ r.kind = "STD"
  /\ ~IdUsed(env, used, r)
  /\ LET p == Pred(st, ps) IN p # 0 => R[p].ts <= r.ts /\ Closed(R[p]) = Closed(r)
=============================================================================
