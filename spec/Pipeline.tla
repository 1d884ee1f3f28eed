------------------------------ MODULE Pipeline ------------------------------
(* The stages through which a sentence passes.  A stage either parses the    *)
(* sentence, in which case it has a parse forest of its own, or chooses      *)
(* among the trees of an earlier stage ("rerank"); it may depend on one      *)
(* earlier stage (prune: its number, or 0), and has nothing to work with if  *)
(* that stage found nothing.  The first parsing stage that finds nothing     *)
(* puts together parses of parts of the sentence; others then reuse the most *)
(* recent tree.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
\* found[m]: whether stage m found a parse of its own
\* ("sldop": chooses among the best trees of its own forest, and may find none)
Parses(stage) == stage.kind \notin {"rerank", "sldop"}
\* the stage that puts together partial parses, or 0
PartialAt(stages, found) == LET c == {m \in DOMAIN stages : Parses(stages[m]) /\ ~found[m]} IN
   IF c = {} THEN 0 ELSE CHOOSE m \in c : \A x \in c : m <= x
\* what a stage yields
Yields(stages, found, m) == IF found[m] THEN "own"
   ELSE IF PartialAt(stages, found) = m THEN "parts"
   ELSE IF \E x \in 1..(m - 1) : found[x] \/ PartialAt(stages, found) = x THEN "earlier" ELSE "none"
\* the stage where its tree is from
Source(stages, found, m) == Max0({x \in 1..m : Yields(stages, found, x) \in {"own", "parts"}})
\* a stage can only find something when the stage that it depends on did
Sound(stages, found) == \A m \in DOMAIN stages : (found[m] /\ stages[m].prune > 0) => found[stages[m].prune]
=============================================================================
