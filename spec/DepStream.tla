------------------------------ MODULE DepStream ------------------------------
(***************************************************************************)
(* A stream of groups that joins adjacent ones while it is consumed: the   *)
(* consumer asks for the next group or for the next receipt of a group it  *)
(* has got, and groups may be added at the end meanwhile. The machine      *)
(* fetches groups only when it must (it may have to look ahead into the    *)
(* next one to know whether a group goes on). What the consumer sees has   *)
(* to be the joined groups, whatever it asks for first.                    *)
(*                                                                         *)
(* The consumer must not read a group to its end after having asked for a  *)
(* later one (unless it has seen the end of the stream), nor add groups    *)
(* after it was told that there are none left.                             *)
(***************************************************************************)
EXTENDS ToolsContract, TLC, Json

CONSTANTS CertChoices, MaxRecs, MaxStart, MaxGroups, MaxSteps, Joining, Emit

CertOf(c) == CASE c = "none" -> NoCert [] c = "twin" -> "E" [] OTHER -> "A"
ChainOf(c) == CASE c = "short" -> <<"B">> [] OTHER -> <<>>
Shapes == [c : CertChoices, n : 0..MaxRecs]
Group(g, sh) == [cert |-> CertOf(sh.c), chain |-> ChainOf(sh.c),
                 recs |-> [i \in 1..sh.n |-> g * 10 + i]]

VARIABLES shape,    \* all groups handed over so far
          back,     \* those not yet fetched
          got,      \* groups given to the consumer: [cert, chain, recs: fetched and not read]
          read,     \* receipts the consumer has read of each
          over,     \* the consumer was told there are no more groups
          ended,    \* groups whose end the consumer has seen
          script, obs
vars == <<shape, back, got, read, over, ended, script, obs>>

Doc == [g \in DOMAIN shape |-> Group(g, shape[g])]
Want == IF Joining THEN Join(Doc) ELSE PlainDoc(Doc)

Init == /\ \E n \in 0..MaxStart : shape \in [1..n -> Shapes]
        /\ back = PlainDoc(Doc) /\ got = <<>> /\ read = <<>> /\ over = FALSE /\ ended = {}
        /\ script = <<>> /\ obs = <<>>

Room == Len(script) < MaxSteps
Step(s, o) == script' = Append(script, s) /\ obs' = Append(obs, o)
Stop == [stop |-> TRUE, cert |-> NoCert, chain |-> <<>>, rec |-> 0]

\* fetches groups until one is not a continuation of the last one given out
RECURSIVE Fetch(_, _)
Fetch(gs, b) ==
  IF b = <<>> THEN [gs |-> gs, b |-> b, new |-> FALSE]
  ELSE IF Joining /\ gs # <<>> /\ SameCerts(gs[Len(gs)], Head(b))
  THEN Fetch([gs EXCEPT ![Len(gs)].recs = @ \o Head(b).recs], Tail(b))
  ELSE [gs |-> Append(gs, Head(b)), b |-> Tail(b), new |-> TRUE]

NextGroup ==
  /\ Room
  /\ LET f == Fetch(got, back) IN
     /\ got' = f.gs /\ back' = f.b
     /\ read' = IF f.new THEN Append(read, <<>>) ELSE read
     /\ over' = ~f.new
     /\ Step([a |-> "group", g |-> 0, n |-> 0, c |-> ""],
             IF f.new THEN [stop |-> FALSE, cert |-> f.gs[Len(f.gs)].cert,
                            chain |-> f.gs[Len(f.gs)].chain, rec |-> 0]
             ELSE Stop)
  /\ UNCHANGED <<shape, ended>>

\* fetches more for group g until it has a receipt or cannot go on
RECURSIVE More(_, _, _)
More(g, gs, b) ==
  IF gs[g].recs # <<>> \/ ~Joining \/ b = <<>> \/ ~SameCerts(gs[g], Head(b))
  THEN [gs |-> gs, b |-> b]
  ELSE More(g, [gs EXCEPT ![g].recs = @ \o Head(b).recs], Tail(b))

NextReceipt(g) ==
  /\ Room /\ g \in DOMAIN got
  /\ LET m == More(g, got, back)
         rest == m.gs[g].recs IN
     \* the consumer keeps to the rules
     /\ got[g].recs = <<>> => g = Len(got) \/ over
     /\ IF rest = <<>>
        THEN /\ got' = m.gs /\ ended' = ended \cup {g} /\ UNCHANGED read
             /\ Step([a |-> "rec", g |-> g, n |-> 0, c |-> ""], Stop)
        ELSE /\ got' = [m.gs EXCEPT ![g].recs = Tail(rest)]
             /\ read' = [read EXCEPT ![g] = Append(@, Head(rest))]
             /\ UNCHANGED ended
             /\ Step([a |-> "rec", g |-> g, n |-> 0, c |-> ""],
                     [Stop EXCEPT !.stop = FALSE, !.rec = Head(rest)])
     /\ back' = m.b
  /\ UNCHANGED <<shape, over>>

Add(sh) ==
  /\ Room /\ ~over /\ ended \cap {Len(got)} = {} /\ Len(shape) < MaxGroups
  /\ shape' = Append(shape, sh)
  /\ back' = Append(back, Group(Len(shape) + 1, sh))
  /\ Step([a |-> "add", g |-> 0, n |-> sh.n, c |-> sh.c], Stop)
  /\ UNCHANGED <<got, read, over, ended>>

Next == NextGroup \/ (\E g \in 1..MaxGroups : NextReceipt(g)) \/ (\E sh \in Shapes : Add(sh))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what is seen is what is joined
SeesJoined ==
  /\ Len(got) <= Len(Want)
  /\ \A g \in DOMAIN got : /\ SameCerts(got[g], Want[g])
                           /\ IsPrefix(read[g], Want[g].recs)
EndsRight ==
  /\ over => Len(got) = Len(Want)
  /\ \A g \in ended : read[g] = Want[g].recs

\* shape0: what there was at the beginning
Added == Cardinality({i \in DOMAIN script : script[i].a = "add"})
Plan == (Emit /\ (Len(script) = MaxSteps)) =>
          PrintT("PLAN " \o ToJson([shape |-> SubSeq(shape, 1, Len(shape) - Added), script |-> script,
                                    obs |-> obs, join |-> Joining]))
=============================================================================
