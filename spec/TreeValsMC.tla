----------------------------- MODULE TreeValsMC -----------------------------
(* Laws of the tree order, paths and traversals on all small trees.         *)
EXTENDS TreeVals
CONSTANTS MaxN, Labs
Shapes == UNION {TreesOver(0..(n - 1), Labs, 1, FALSE) : n \in 1..MaxN}
VARIABLES t, at, seen
Lab(x) == MapLabels(LAMBDA l : IF l = "p" THEN "A" ELSE l, x)
Labelled == TLCEval({Lab(x) : x \in Shapes})
Few == TLCEval({x \in Labelled : Cardinality(Yield(x)) <= 2})
Fewer == TLCEval({x \in Few : Len(Nodes(x)) <= 3})
ASSUME \A a, b \in Few : (Cmp(a, b) = 0) = (a = b) /\ Cmp(a, b) = -Cmp(b, a)
ASSUME \A a, b, c \in Fewer : (Cmp(a, b) < 0 /\ Cmp(b, c) < 0) => Cmp(a, c) < 0
Init == t \in Labelled /\ at = <<>> /\ seen = {<<>>}
\* a traversal of the paths in preorder
Next == /\ Cardinality(seen) < Len(PrePaths(t))
        /\ at' = PrePaths(t)[Cardinality(seen) + 1] /\ seen' = seen \cup {at'} /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, at, seen>>
AtIsSub == At(t, at).i >= 0 \/ Contains(Nodes(t), At(t, at))
ReplaceSame == at # <<>> => Replace(t, at, At(t, at)) = t
ReplacedAt == at # <<>> => At(Replace(t, at, Term(9)), at) = Term(9)
DeleteOne == at # <<>> => Len(Leaves(Delete(t, at))) = Len(Leaves(t)) - Len(Leaves(At(t, at)))
OncePre == IsInjective(PrePaths(t)) /\ ToSet(PrePaths(t)) = ToSet(PostPaths(t))
           /\ Len(BothPaths(t)) = Len(PrePaths(t)) + Len(Nodes(t))
LeavesAt == [n \in DOMAIN LeafPaths(t) |-> At(t, LeafPaths(t)[n]).i] = Leaves(t)
SpanLowest == \A a \in 0..(Len(Leaves(t)) - 1) : \A b \in (a + 1)..Len(Leaves(t)) :
    LET x == At(t, Spanning(t, a, b)) IN
    /\ {Leaves(t)[n + 1] : n \in a..(b - 1)} \subseteq Yield(x)
    /\ \A c \in DOMAIN x.k : ~({Leaves(t)[n + 1] : n \in a..(b - 1)} \subseteq Yield(x.k[c]))
=============================================================================
