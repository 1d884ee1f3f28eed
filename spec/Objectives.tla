----------------------------- MODULE Objectives -----------------------------
(* What the objectives are for a sequence D of derivations with weight w     *)
(* (an exponent of 1/2) and n fragments; probabilities are sets of exponents *)
(* of 1/2.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE AddBit(_, _)
AddBit(S, w) == IF w \in S THEN AddBit(S \ {w}, w - 1) ELSE S \cup {w}
Prob(ws) == FoldLeft(LAMBDA a, w : AddBit(a, w), {}, ws)
AtLeast(A, B) == A = B \/ MinOf((A \ B) \cup (B \ A)) \in A
Weights(D) == [n \in DOMAIN D |-> D[n].w]
BestW(D) == MinOf({D[n].w : n \in DOMAIN D})
Shortest(D) == MinOf({D[n].n : n \in DOMAIN D})
ShortOnes(D) == SelectSeq(D, LAMBDA d : d.n = Shortest(D))
\* selected are n of the most probable of all trees
BestN(sel, all, p, n) == /\ sel \subseteq all
                         /\ Cardinality(sel) = MinOf({n, Cardinality(all)})
                         /\ \A x \in sel : \A y \in all \ sel : AtLeast(p[x], p[y])
=============================================================================
