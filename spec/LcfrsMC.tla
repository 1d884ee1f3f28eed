------------------------------ MODULE LcfrsMC ------------------------------
(* The stack machine run on the productions of every small tree, including  *)
(* trees whose children are not in canonical order.                         *)
EXTENDS Lcfrs
CONSTANTS MaxN
VARIABLES t, prods, n, stack
vars == <<t, prods, n, stack>>
RECURSIVE Reversed(_)
Reversed(x) == IF IsTerm(x) THEN x ELSE Node(x.l, Reverse([c \in DOMAIN x.k |-> Reversed(x.k[c])]))
Word(p) == <<"a", "b", "a", "c", "d">>[p + 1]
Init == \E m \in 1..MaxN : \E x \in Rooted(TreesOver(0..(m - 1), {"A", "B"}, IF m < 4 THEN 1 ELSE 0, TRUE)) :
   /\ t \in {x, Reversed(x)} /\ prods = Productions(t, Word) /\ n = Len(prods) /\ stack = <<>>
Next == n > 0 /\ n' = n - 1 /\ stack' = Step(prods, n, stack) /\ UNCHANGED <<t, prods>>
Spec == Init /\ [][Next]_vars
Subtree(m) == Nodes(t)[m]
NoFailure == n < Len(prods) => stack # <<>>
FanOuts == \A m \in DOMAIN prods : FanP(prods[m]) = FanOut(Yield(Subtree(m)))
\* the item on top derives the words of the node just processed, in its ranges
Top == n < Len(prods) => LET x == Subtree(n + 1) rs == Runs(Yield(x)) IN
   /\ stack[1].l = x.l /\ Len(stack[1].parts) = Len(rs)
   /\ \A m \in DOMAIN rs : [k \in DOMAIN stack[1].parts[m] |-> prods[stack[1].parts[m][k]].w]
                         = [k \in 1..(rs[m][2] - rs[m][1] + 1) |-> Word(rs[m][1] + k - 1)]
Done == n = 0 => Regenerates(prods, t, [k \in 1..Cardinality(Yield(t)) |-> Word(k - 1)])
=============================================================================
