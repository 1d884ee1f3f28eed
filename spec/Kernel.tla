------------------------------- MODULE Kernel -------------------------------
(* Fragments that trees have in common.  The nodes of a tree are sequences  *)
(* of child numbers; its index maps each node to its production.            *)
EXTENDS Fragments
RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup (IF t.k[1].i >= 0 THEN {} ELSE UNION {{<<n>> \o p : p \in Paths(t.k[n])} : n \in DOMAIN t.k})
RECURSIVE NodeAt(_, _)
NodeAt(t, p) == IF p = <<>> THEN t ELSE NodeAt(t.k[p[1]], Tail(p))
Index(t, s) == TLCEval([p \in Paths(t) |-> ProdAt(NodeAt(t, p), s)])
NumKids(p) == IF IsLex(p) \/ IsFrontier(p) THEN 0 ELSE Len(p.r) - 1
-----------------------------------------------------------------------------
(* Nodes correspond when they have the same production; a fragment that two *)
(* trees have in common is maximal when it cannot be extended at its open   *)
(* nodes nor at its root, with the same correspondence of nodes.            *)
Pairs(A, B) == {x \in (DOMAIN A) \X (DOMAIN B) : A[x[1]] = B[x[2]]}
Up(x) == <<Front(x[1]), Front(x[2])>>
IsTop(P, x) == ~(x[1] # <<>> /\ x[2] # <<>> /\ Last(x[1]) = Last(x[2]) /\ Up(x) \in P)
RECURSIVE Grow(_, _, _, _)
Grow(A, P, i, j) == LET p == A[i] IN TLCEval([p |-> p, k |-> [c \in 1..NumKids(p) |->
   LET a == Append(i, c) b == Append(j, c) IN IF <<a, b>> \in P THEN Grow(A, P, a, b) ELSE Open(p.r[c + 1])]])
\* with the node of the first tree at which they occur
MaxFrags(A, B) == LET P == TLCEval(Pairs(A, B)) IN {[i |-> x[1], f |-> Grow(A, P, x[1], x[2])] : x \in {y \in P : IsTop(P, y)}}
FragSet(S) == {x.f : x \in S}
-----------------------------------------------------------------------------
(* Occurrences in an indexed tree                                           *)
RECURSIVE Occ(_, _, _)
Occ(f, A, i) == IF IsOpen(f) THEN f.p.r[1] = A[i].r[1]
  ELSE f.p = A[i] /\ \A n \in DOMAIN f.k : Occ(f.k[n], A, Append(i, n))
OccNodes(f, A) == {i \in DOMAIN A : ~IsOpen(f) /\ Occ(f, A, i)}
CountIn(f, A) == Cardinality(OccNodes(f, A))
\* all parts of fragment f with the same root
RECURSIVE Prunes(_)
Prunes(f) == IF IsOpen(f) THEN {f} ELSE {TLCEval([p |-> f.p, k |-> c]) :
   c \in Tuples(TLCEval([n \in DOMAIN f.k |-> {Open(f.k[n].p.r[1])} \cup Prunes(f.k[n])]))}
RECURSIVE NumOpen(_)
NumOpen(f) == IF IsOpen(f) THEN 1 ELSE SumSeq([n \in DOMAIN f.k |-> NumOpen(f.k[n])])
RECURSIVE Terms(_)
Terms(f) == IF IsOpen(f) THEN <<>> ELSE IF IsLex(f.p) THEN <<f.p>> ELSE Cat([n \in DOMAIN f.k |-> Terms(f.k[n])])
\* fragments at a node, limited in depth and in the number of open nodes
RECURSIVE Limited(_, _, _)
Limited(A, i, d) == LET p == A[i] IN
  IF NumKids(p) = 0 THEN {[p |-> p, k |-> <<>>]}
  ELSE {TLCEval([p |-> p, k |-> c]) : c \in Tuples(TLCEval([n \in 1..NumKids(p) |-> {Open(p.r[n + 1])} \cup
          (IF d = 1 THEN {} ELSE Limited(A, Append(i, n), d - 1))]))}
CoverFrags(A, d, m) == IF d = 0 THEN {} ELSE {f \in UNION {Limited(A, i, d) : i \in DOMAIN A} : NumOpen(f) <= m}
\* a tree with words, as a fragment: "None" marks positions below open nodes
RECURSIVE AsFrag(_, _)
AsFrag(t, s) == LET p == ProdAt(t, s) IN IF t.k[1].i >= 0 THEN [p |-> p, k |-> <<>>]
  ELSE TLCEval([p |-> p, k |-> [n \in DOMAIN t.k |-> AsFrag(t.k[n], s)]])
=============================================================================
