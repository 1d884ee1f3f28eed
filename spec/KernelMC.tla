------------------------------ MODULE KernelMC ------------------------------
(* The extraction algorithm: a matrix of corresponding nodes is filled; the *)
(* nodes of the second tree are visited, parents first, and the connected   *)
(* part reachable from each remaining entry is taken out.  For all pairs of *)
(* small trees and all orders in which the entries of a row are visited,    *)
(* exactly the maximal common fragments are found; these decide all         *)
(* occurrences of smaller fragments.                                        *)
EXTENDS Kernel
CONSTANTS MaxN, Words
VARIABLES a, b, todo, matrix, found
vars == <<a, b, todo, matrix, found>>
RECURSIVE Fan(_)
Fan(x) == IF IsTerm(x) THEN x ELSE LET f == FanOut(Yield(x)) IN
   Node(IF f > 1 THEN x.l \o "_" \o ToString(f) ELSE x.l, [n \in DOMAIN x.k |-> Fan(x.k[n])])
Bin(x) == \A n \in NodeSet(x) : Len(n.k) <= 2
Pool == {Fan(x) : x \in {y \in UNION {Rooted(TreesOver(0..(n - 1), {"A"}, IF n < 3 THEN 1 ELSE 0, TRUE)) : n \in 1..MaxN} : Bin(y)}}
Corpus == UNION {{<<t, s>> : s \in [1..Cardinality(Yield(t)) -> Words]} : t \in Pool}
\* rows of the matrix are visited with parents before their children, left to right
Before(x, y) == Len(x) < Len(y) /\ SubSeq(y, 1, Len(x)) = x
Init == \E x, y \in Corpus : /\ a = Index(x[1], x[2]) /\ b = Index(y[1], y[2])
   /\ todo = DOMAIN b /\ matrix = Pairs(a, b) /\ found = {}
\* the entries connected to an entry of the matrix
RECURSIVE Part(_, _, _)
Part(M, i, j) == {<<i, j>>} \cup UNION {LET x == <<Append(i, c), Append(j, c)>> IN IF x \in M THEN Part(M, x[1], x[2]) ELSE {} : c \in 1..NumKids(a[i])}
Ready(j) == j \in todo /\ ~\E x \in todo : Before(x, j)
Row(j) == {i \in DOMAIN a : <<i, j>> \in matrix}
Take(j) == Ready(j) /\ \E i \in Row(j) : LET pt == Part(matrix, i, j) IN
   /\ matrix' = matrix \ pt
   /\ found' = found \cup {[i |-> i, nodes |-> {x[1] : x \in pt}]}
   /\ UNCHANGED <<a, b, todo>>
Skip(j) == Ready(j) /\ Row(j) = {} /\ todo' = todo \ {j} /\ UNCHANGED <<a, b, matrix, found>>
Next == \E j \in todo : Take(j) \/ Skip(j)
Spec == Init /\ [][Next]_vars
RECURSIVE FromNodes(_, _)
FromNodes(i, S) == LET p == a[i] IN TLCEval([p |-> p, k |-> [c \in 1..NumKids(p) |->
   IF Append(i, c) \in S THEN FromNodes(Append(i, c), S) ELSE Open(p.r[c + 1])]])
Complete == todo = {} => {[i |-> x.i, f |-> FromNodes(x.i, x.nodes)] : x \in found} = MaxFrags(a, b)
Start == todo = DOMAIN b /\ found = {}
\* fragments in common are the parts of the fragment grown from a pair of nodes
Grown == Start => \A x \in matrix : LET g == Prunes(Grow(a, matrix, x[1], x[2])) IN
   g = {f \in Limited(a, x[1], 9) : Occ(f, b, x[2])}
\* a fragment that occurs in both is part of a maximal one, and is not larger
Maximal == Start => LET M == TLCEval(FragSet(MaxFrags(a, b))) IN
   /\ \A f \in M : OccNodes(f, a) # {} /\ OccNodes(f, b) # {}
   /\ \A i \in DOMAIN a : \A f \in Limited(a, i, 9) : OccNodes(f, b) # {} => \E g \in M : LET RECURSIVE Within(_)
        Within(h) == f \in Prunes(h) \/ \E n \in DOMAIN h.k : ~IsOpen(h.k[n]) /\ Within(h.k[n]) IN Within(g)
\* the order of the trees does not matter
Symmetric == Start => FragSet(MaxFrags(a, b)) = FragSet(MaxFrags(b, a))
=============================================================================
