----------------------------- MODULE GenUsedIds -----------------------------
(***************************************************************************)
(* Sequences of operations on some trackers, with the history of what each  *)
(* was given, and what has to hold of them.                                *)
(***************************************************************************)
EXTENDS UsedIds, Json, TLC

CONSTANTS Kind, Depth, Size, Trackers, Emit

\* IDs that are near each other in one respect or another
Universe == << <<49>>, <<49, 48>>, <<>>, <<50>>, <<97, 49>>, <<65, 48, 49>>, <<97>>,
               <<97, 50, 98>>, <<97, 49, 48, 98>> >>
Ids == {Universe[i] : i \in 1..Size}

VARIABLES t, h, plan
vars == <<t, h, plan>>

Init == /\ t = [k \in 1..Trackers |-> New(Kind)]
        /\ h = [k \in 1..Trackers |-> <<>>]
        /\ plan = <<>>

Note(op) == /\ plan' = Append(plan, IF Emit THEN op ELSE 0)
            /\ IF Emit /\ Len(plan') = Depth
               THEN PrintT("PLAN " \o ToJson([kind |-> Kind, ops |-> plan'])) ELSE TRUE

Op(o, k, id, f) == [op |-> o, k |-> k, id |-> id, from |-> f]

Put(k) == \E id \in Ids :
  /\ Accepts(t[k], id) \/ Kind = "U"
  /\ t' = [t EXCEPT ![k] = Add(@, id)]
  /\ h' = [h EXCEPT ![k] = Append(@, id)]
  /\ Note(Op("add", k, id, <<>>))

Others(k) == {j \in 1..Trackers : j # k}
Lists(k) == {<<j>> : j \in Others(k)} \cup {<<i, j>> : i \in Others(k), j \in Others(k)}
Of(f) == [i \in DOMAIN f |-> t[f[i]]]
RECURSIVE Hist(_)
Hist(f) == IF f = <<>> THEN <<>> ELSE h[Head(f)] \o Hist(Tail(f))

Join(k) == \E f \in Lists(k) :
  /\ CanMerge(t[k], Of(f))
  /\ t' = [t EXCEPT ![k] = Merge(@, Of(f))]
  /\ h' = [h EXCEPT ![k] = @ \o Hist(f)]
  /\ Note(Op("merge", k, <<>>, f))

Clash(k) == \E f \in Lists(k) :      \* ends the sequence: what is left is not specified
  /\ ~CanMerge(t[k], Of(f))
  /\ Len(plan) = Depth - 1
  /\ Note(Op("merge", k, <<>>, f)) /\ UNCHANGED <<t, h>>

Same(k) == \E o \in {"reload", "state", "pickle"} : Note(Op(o, k, <<>>, <<>>)) /\ UNCHANGED <<t, h>>

Copy(k) == \E j \in Others(k) :
           /\ t' = [t EXCEPT ![j] = t[k]] /\ h' = [h EXCEPT ![j] = h[k]]
           /\ Note(Op("copy", k, <<>>, <<j>>))

Fresh(k) == /\ t[k] # New(Kind)
            /\ t' = [t EXCEPT ![k] = New(Kind)] /\ h' = [h EXCEPT ![k] = <<>>]
            /\ Note(Op("new", k, <<>>, <<>>))

Next == Len(plan) < Depth /\ \E k \in 1..Trackers : Put(k) \/ Join(k) \/ Clash(k) \/ Same(k) \/ Copy(k) \/ Fresh(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Given(k) == {h[k][i] : i \in DOMAIN h[k]}

\* the default one rejects exactly what it was given
UniqueExact == Kind = "U" => \A k \in 1..Trackers, id \in Ids : Accepts(t[k], id) <=> id \notin Given(k)
\* the compact one accepts exactly what sorts after all it was given
NaturalExact == Kind = "N" => \A k \in 1..Trackers, id \in Ids :
                  Accepts(t[k], id) <=> \A g \in Given(k) : After(id, g)
NeverTwice == \A k \in 1..Trackers : \A g \in Given(k) : ~Accepts(t[k], g)

RECURSIVE AddAll(_, _)
AddAll(x, s) == IF s = <<>> THEN x ELSE AddAll(Add(x, Head(s)), Tail(s))
\* merging in order is the same as adding one after the other
LikeOneByOne == \A k \in 1..Trackers : t[k] = AddAll(New(Kind), h[k])
\* and the order is a total one up to equality of keys
Ordered == \A a, b \in Ids : Cmp(a, b) = -Cmp(b, a)
Transitive == \A a, b, c \in Ids : Cmp(a, b) >= 0 /\ Cmp(b, c) >= 0 => Cmp(a, c) >= 0
ASSUME Ordered
ASSUME Transitive
=============================================================================
