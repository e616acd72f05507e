------------------------------ MODULE GenPaths ------------------------------
(***************************************************************************)
(* Conversions to try: every path through the representations up to the    *)
(* given length, with every well-formed content of one element.            *)
(***************************************************************************)
EXTENDS GenForm

CONSTANT MaxPath

Paths == UNION {[1..n -> Reps] : n \in 1..MaxPath}
PInit == /\ done = FALSE
         /\ \E path \in Paths, q \in Parts : \E tok \in Good(q) :
              p = [path |-> path, set |-> << <<q, tok>> >>]
PSpec == PInit /\ [][Next]_vars
=============================================================================
