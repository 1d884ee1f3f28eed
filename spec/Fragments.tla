----------------------------- MODULE Fragments -----------------------------
(* Fragments of trees.  A fragment is a record [p |-> production, k |->     *)
(* <<one per child>>], where a child is a fragment or, when it is left open,*)
(* a frontier Open(label).  Fragments are equal exactly when they consist   *)
(* of the same productions in the same configuration.                       *)
EXTENDS Gram
Open(lab) == [p |-> Prod(<<lab>>, <<>>, ""), k |-> <<>>]
IsOpen(f) == IsFrontier(f.p)
ProdAt(t, s) == ProdOf(t, LAMBDA y : s[y + 1])
RECURSIVE Tuples(_)
Tuples(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<h>> \o r : h \in ss[1], r \in Tuples(Tail(ss))}
\* all fragments of a tree with sequence of words s, with the root of t as root
RECURSIVE FragsOf(_, _)
FragsOf(t, s) == LET p == ProdAt(t, s) IN
  IF t.k[1].i >= 0 THEN {[p |-> p, k |-> <<>>]}
  ELSE {TLCEval([p |-> p, k |-> c]) : c \in Tuples(TLCEval([n \in DOMAIN t.k |-> {Open(t.k[n].l)} \cup FragsOf(t.k[n], s)]))}
\* their number, without enumeration
RECURSIVE NumFrags(_)
NumFrags(t) == IF t.k[1].i >= 0 THEN 1 ELSE FoldLeft(LAMBDA a, b : a * (NumFrags(b) + 1), 1, t.k)
RootLab(f) == f.p.r[1]
\* number of productions of a fragment
RECURSIVE FragSize(_)
FragSize(f) == IF IsOpen(f) THEN 0 ELSE 1 + SumSeq([n \in DOMAIN f.k |-> FragSize(f.k[n])])
RECURSIVE Depth(_)
Depth(f) == IF IsOpen(f) THEN 0 ELSE 1 + Max({0} \cup {Depth(f.k[n]) : n \in DOMAIN f.k})
\* does fragment f occur at the root of t?
RECURSIVE OccursAt(_, _, _)
OccursAt(f, t, s) == IF IsOpen(f) THEN f.p.r[1] = t.l
  ELSE f.p = ProdAt(t, s) /\ \A n \in DOMAIN f.k : OccursAt(f.k[n], t.k[n], s)
=============================================================================
