------------------------------- MODULE DropMC -------------------------------
(* Histories of deletions of terminals from a tree.  orig gives for every   *)
(* remaining token its position in the first sentence.                      *)
EXTENDS Punct
CONSTANTS MaxN, MaxSteps
VARIABLES t, sent, t0, orig, steps
vars == <<t, sent, t0, orig, steps>>
Init == \E n \in 1..MaxN : \E x \in Rooted(TreesOver(0..(n - 1), {"A"}, 1, TRUE)) :
   t = x /\ t0 = x /\ sent = [m \in 1..n |-> m - 1] /\ orig = [m \in 1..n |-> m - 1] /\ steps = 0
Next == steps < MaxSteps /\ \E S \in SUBSET Yield(t) :
   LET d == Drop(t, sent, S) IN t' = d.t /\ sent' = d.sent /\ steps' = steps + 1
     /\ orig' = SelectSeq(orig, LAMBDA p : p \notin {orig[n + 1] : n \in S}) /\ t0' = t0
Spec == Init /\ [][Next]_vars
Indices == Yield(t) = 0..(Len(sent) - 1) /\ sent = orig
\* a history of deletions equals a single one
AtOnce == t = Drop(t0, [m \in 1..Cardinality(Yield(t0)) |-> m - 1], Yield(t0) \ ToSet(orig)).t
\* constituents that remain dominate exactly the remaining tokens, in order
Remaining == t.k # <<>> => NoEmpty(t) /\
  LET f == [n \in 0..(Len(orig) - 1) |-> orig[n + 1]] IN
  Skeleton(Renumber(f, t), {}) = Skeleton(t0, Yield(t0) \ ToSet(orig))
KeepsContinuity == AllContinuous(t0) => t.k = <<>> \/ AllContinuous(t)
=============================================================================
