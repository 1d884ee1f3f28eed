-------------------------------- MODULE Bits --------------------------------
(* Finite sets of positions, which bit vectors represent.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
NextIn(S, pos, none) == IF \E x \in S : x >= pos THEN Min({x \in S : x >= pos}) ELSE none
\* next position not in S, at most lim
NextOut(S, pos, lim) == IF \E x \in pos..(lim - 1) : x \notin S
                        THEN Min({x \in pos..(lim - 1) : x \notin S}) ELSE lim
Components(S) == Cardinality({x \in S : (x - 1) \notin S})
BitLen(S) == IF S = {} THEN 0 ELSE Max(S) + 1
Ascending(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
\* maximal runs as ascending sequences
RunOf(S, a) == {x \in S : x >= a /\ \A y \in a..x : y \in S}
RunSeqs(S) == LET st == Ascending({x \in S : (x - 1) \notin S})
              IN [n \in DOMAIN st |-> Ascending(RunOf(S, st[n]))]
=============================================================================
