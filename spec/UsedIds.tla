------------------------------- MODULE UsedIds -------------------------------
(***************************************************************************)
(* Keeping track of used receipt IDs.  An ID is a sequence of bytes (UTF-8). *)
(*                                                                         *)
(* A tracker is [kind, ids, any, hi]: kind "U" knows all IDs (ids), kind   *)
(* "N" only whether there are any and the last one (hi).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Digit(c) == c \in 48..57
\* in UTF-8, the capitals of Latin-1 follow a byte 195; case is folded one by one,
\* so that two IDs differ unless they are the same but for the case of letters
Lower(p, c) == IF c \in 65..90 \/ (p = 195 /\ c \in (128..158) \ {151}) THEN c + 32 ELSE c

RECURSIVE Run(_, _)
\* the length of the longest beginning of all digits (d) or no digits (~d)
Run(s, d) == IF s = <<>> \/ Digit(Head(s)) # d THEN 0 ELSE 1 + Run(Tail(s), d)

From(s, n) == SubSeq(s, n + 1, Len(s))
To(s, n) == SubSeq(s, 1, n)

RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) = 48 THEN Strip(Tail(s)) ELSE s

RECURSIVE LexFrom(_, _, _)
\* -1, 0, 1; p is the byte before
LexFrom(p, a, b) == IF a = <<>> THEN IF b = <<>> THEN 0 ELSE -1
             ELSE IF b = <<>> THEN 1
             ELSE LET x == Lower(p, Head(a))  y == Lower(p, Head(b)) IN
                  IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE LexFrom(x, Tail(a), Tail(b))

Lex(a, b) == LexFrom(0, a, b)

Num(a, b) == LET x == Strip(a)  y == Strip(b) IN
             IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE Lex(x, y)

RECURSIVE Cmp(_, _)
\* text, number, text, ... compared part by part
Cmp(a, b) ==
  LET ta == Run(a, FALSE)  tb == Run(b, FALSE)
      t == Lex(To(a, ta), To(b, tb))
      ra == From(a, ta)  rb == From(b, tb)
  IN IF t # 0 THEN t
     ELSE IF ra = <<>> THEN IF rb = <<>> THEN 0 ELSE -1
     ELSE IF rb = <<>> THEN 1
     ELSE LET na == Run(ra, TRUE)  nb == Run(rb, TRUE)
              n == Num(To(ra, na), To(rb, nb))
          IN IF n # 0 THEN n ELSE Cmp(From(ra, na), From(rb, nb))

After(a, b) == Cmp(a, b) > 0     \* a sorts after b

----------------------------------------------------------------------------

New(kind) == [kind |-> kind, ids |-> {}, any |-> FALSE, lo |-> <<>>, hi |-> <<>>]

Accepts(t, id) == IF t.kind = "U" THEN id \notin t.ids ELSE ~t.any \/ After(id, t.hi)

Add(t, id) == IF t.kind = "U" THEN [t EXCEPT !.ids = @ \cup {id}]
              ELSE [t EXCEPT !.any = TRUE, !.lo = IF t.any THEN @ ELSE id, !.hi = id]

CanMergeOne(t, o) == IF t.kind = "U" THEN t.ids \cap o.ids = {}
                     ELSE ~o.any \/ Accepts(t, o.lo)

MergeOne(t, o) == IF t.kind = "U" THEN [t EXCEPT !.ids = @ \cup o.ids]
                  ELSE IF ~o.any THEN t ELSE Add(Add(t, o.lo), o.hi)

\* IDs an error about a failed merge may name
ClashesOne(t, o) == IF t.kind = "U" THEN t.ids \cap o.ids ELSE {o.lo}

\* several (a sequence), one after the other
RECURSIVE CanMerge(_, _)
CanMerge(t, os) == IF os = <<>> THEN TRUE
                   ELSE IF CanMergeOne(t, Head(os)) THEN CanMerge(MergeOne(t, Head(os)), Tail(os)) ELSE FALSE

RECURSIVE Merge(_, _)
Merge(t, os) == IF os = <<>> THEN t ELSE Merge(MergeOne(t, Head(os)), Tail(os))

RECURSIVE Clashes(_, _)
Clashes(t, os) == IF os = <<>> THEN {}
                  ELSE IF t.kind = "U" THEN ClashesOne(t, Head(os)) \cup Clashes(MergeOne(t, Head(os)), Tail(os))
                  ELSE IF CanMergeOne(t, Head(os)) THEN Clashes(MergeOne(t, Head(os)), Tail(os))
                  ELSE ClashesOne(t, Head(os))
=============================================================================
