------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Verification of a DEP in work packages.                                 *)
(*                                                                         *)
(* The parser delivers chunks of at most Chunk receipts. The dispatcher    *)
(* takes NProcs of them at a time, derives the state each one starts from  *)
(* without verifying anything, and hands them to workers, which finish in  *)
(* any order while the parser reads on. The results of a batch are         *)
(* collected before the next batch is handed out: an error in any package  *)
(* ends the run, and the IDs used in the packages are merged one after the *)
(* other.                                                                  *)
(*                                                                         *)
(* The histories come from GenHistory; a faulty receipt may be followed by *)
(* more receipts that carry on from it.                                    *)
(***************************************************************************)
EXTENDS GenHistory

CONSTANTS MaxTail,    \* receipts after a faulty one
          ChunkSizes, \* 0: everything at once
          Procs,
          Pipe        \* FALSE: only print the histories

VARIABLES tail, pl
pvars == <<plan, R, st, used, faults, done, tail, pl>>

All == Span(First1, N)
Idle == [pc |-> "build", chunk |-> 0, np |-> 0, pos |-> 1, run |-> <<>>,
         rst |-> InitSt, ids |-> {}, ok |-> TRUE]

PInit == Init /\ tail = 0 /\ pl = Idle

PExtend == Extend /\ UNCHANGED <<tail, pl>>

\* receipts that go on after a faulty one as if nothing had happened
AddTail(p) ==
  LET s == Derive(Env, R, st, <<N>>)
      mk == [Make(p) EXCEPT !.chain = R[N].hash, !.id = "id" \o ToString(N + 1)]
      r == [mk EXCEPT !.dec = IF p.kind = "STD" THEN NewCounter(s, mk) ELSE None]
  IN /\ plan' = Append(plan, p) /\ R' = Append(R, r) /\ tail' = tail + 1
     /\ st' = Derive(Env, R', s, <<N + 1>>)
     /\ UNCHANGED <<used, faults, done, pl>>

PTail == /\ ~done /\ faults # {} /\ tail < MaxTail /\ pl.pc = "build"
         /\ \E k \in Kinds, a \in {"Z", "P"} : AddTail([Good EXCEPT !.kind = k, !.amt = a])

PFinish == /\ ~done /\ plan # <<>> /\ (faults # {} \/ Len(plan) = Total)
           /\ done' = TRUE
           /\ IF Emit THEN PrintT("PLAN " \o ToJson([p |-> plan, ok |-> faults = {},
                                    faults |-> faults, tail |-> tail])) ELSE TRUE
           /\ UNCHANGED <<plan, R, st, used, faults, tail, pl>>

----------------------------------------------------------------------------
(* The run *)

Launch == /\ Pipe /\ done /\ pl.pc = "build"
         /\ \E c \in ChunkSizes, n \in Procs :
              pl' = [Idle EXCEPT !.pc = "run", !.chunk = IF c = 0 THEN Len(All) ELSE c,
                                 !.np = n, !.ids = InitUsed]
         /\ UNCHANGED <<plan, R, st, used, faults, done, tail>>

\* the next chunk from position a
ChunkAt(a, c) == SubSeq(All, a, IF a + c - 1 > Len(All) THEN Len(All) ELSE a + c - 1)

RECURSIVE Batch(_, _, _, _)
Batch(a, c, n, s) ==    \* at most n packages with their start states
  IF n = 0 \/ a > Len(All) THEN <<>>
  ELSE LET xs == ChunkAt(a, c) IN
       << [xs |-> xs, st |-> s, done |-> FALSE, ok |-> FALSE, out |-> s, ids |-> {}] >>
         \o Batch(a + Len(xs), c, n - 1, Derive(Env, R, s, xs))

\* a worker finishes a package; it knows of no IDs but its own
Work(i) ==
  /\ pl.pc = "run" /\ i \in DOMAIN pl.run /\ ~pl.run[i].done
  /\ LET k == pl.run[i]
         res == Fold(Env, G, R, k.st, PS, {}, k.xs)
     IN pl' = [pl EXCEPT !.run[i] = [k EXCEPT !.done = TRUE, !.ok = res.ok,
                                               !.out = res.st, !.ids = res.used]]
  /\ UNCHANGED <<plan, R, st, used, faults, done, tail>>

Finished == \A i \in DOMAIN pl.run : pl.run[i].done
AnyError == \E i \in DOMAIN pl.run : ~pl.run[i].ok

RECURSIVE Merge(_, _)
\* -> <<no duplicate, all IDs>>
Merge(ids, runs) ==
  IF runs = <<>> THEN <<TRUE, ids>>
  ELSE IF ids \cap Head(runs).ids # {} THEN <<FALSE, ids>>
  ELSE Merge(ids \cup Head(runs).ids, Tail(runs))

Collect ==
  /\ pl.pc = "run" /\ Finished
  /\ LET m == Merge(pl.ids, pl.run)
         bad == AnyError \/ ~m[1]
         rst == IF pl.run = <<>> THEN pl.rst ELSE pl.run[Len(pl.run)].out
     IN IF bad THEN pl' = [pl EXCEPT !.pc = "end", !.ok = FALSE]
        ELSE IF pl.pos > Len(All)
        THEN pl' = [pl EXCEPT !.pc = "end", !.rst = rst, !.ids = m[2]]
        ELSE LET b == Batch(pl.pos, pl.chunk, pl.np, rst) IN
             pl' = [pl EXCEPT !.run = b, !.rst = rst, !.ids = m[2],
                              !.pos = b[Len(b)].xs[Len(b[Len(b)].xs)] - First1 + 2]
  /\ UNCHANGED <<plan, R, st, used, faults, done, tail>>

PNext == PExtend \/ PTail \/ PFinish \/ Launch \/ Collect \/ \E i \in 1..6 : Work(i)
PSpec == PInit /\ [][PNext]_pvars
Fair == PSpec /\ WF_pvars(Collect) /\ \A i \in 1..6 : WF_pvars(Work(i))

----------------------------------------------------------------------------
\* C08: whatever the schedule, the outcome is that of going through in order
Sequential == Fold(Env, G, R, InitSt, PS, InitUsed, All)
SameOutcome ==
  pl.pc = "end" => /\ pl.ok = Sequential.ok
                   /\ pl.ok => pl.rst = Sequential.st /\ pl.ids = Sequential.used
NoLostError == pl.pc = "end" /\ pl.ok => ~AnyError
\* C18: the run comes to an end
Ends == (pl.pc = "run") ~> (pl.pc = "end")
=============================================================================
