----------------------------- MODULE EditDistMC -----------------------------
(* Any sequence of edit operations on a forest, with a target forest.  Dist *)
(* changes by at most one in each step, there is always a step that brings  *)
(* the target closer, and it is zero only at the target: Dist is therefore  *)
(* the minimal number of operations.                                        *)
EXTENDS EditDist
CONSTANTS MaxNodes, Labs
VARIABLES f, goal
vars == <<f, goal>>
RECURSIVE Forests(_)
Forests(n) == IF n = 0 THEN {<<>>} ELSE UNION {
   {<<N2(x, k)>> \o r : x \in Labs, k \in Forests(m - 1), r \in Forests(n - m)} : m \in 1..n}
All == UNION {Forests(n) : n \in 0..MaxNodes}
Init == goal \in All /\ f = goal
Next == f' \in {g \in Edits(f, Labs) : Size(g) <= MaxNodes} /\ goal' = goal
Spec == Init /\ [][Next]_vars
Zero == (Dist(f, goal) = 0) = (f = goal)
Symmetric == Dist(f, goal) = Dist(goal, f)
Progress == f # goal => \E g \in Edits(f, Labs) : Dist(g, goal) = Dist(f, goal) - 1
Tabulated == Len(f) = 1 /\ Len(goal) = 1 => TreeDist(f[1], goal[1]) = Dist(f, goal)
\* every operation can be undone by one operation, and changes Dist by at most one
Lipschitz == \A g \in Edits(f, Labs) : Dist(g, goal) - Dist(f, goal) \in {-1, 0, 1} /\ f \in Edits(g, Labs)
=============================================================================
