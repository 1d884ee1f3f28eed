--------------------------- MODULE DopReductionMC ---------------------------
(* The reduction of every pair of small trees, packed or not, meets the     *)
(* obligations; trees are added to the corpus one by one.                   *)
EXTENDS DopReduction
CONSTANTS MaxN, MaxTrees
VARIABLES corpus, packed
vars == <<corpus, packed>>
\* labels are unique to a fan-out
RECURSIVE Fan(_)
Fan(x) == IF IsTerm(x) THEN x ELSE LET f == FanOut(Yield(x)) IN
   Node(IF f > 1 THEN x.l \o "_" \o ToString(f) ELSE x.l, [n \in DOMAIN x.k |-> Fan(x.k[n])])
Bin(x) == \A n \in NodeSet(x) : Len(n.k) <= 2
Pool == {Fan(x) : x \in {y \in UNION {Rooted(TreesOver(0..(n - 1), {"A"}, IF n < 3 THEN 1 ELSE 0, TRUE)) : n \in 1..MaxN} : Bin(y)}}
Sents(n) == {[m \in 1..n |-> "a"], [m \in 1..n |-> IF m = 1 THEN "b" ELSE "a"]}
Init == corpus = <<>> /\ packed \in BOOLEAN
Add == Len(corpus) < MaxTrees /\ \E x \in Pool : \E s \in Sents(Cardinality(Yield(x))) :
  corpus' = Append(corpus, [t |-> x, s |-> s]) /\ UNCHANGED packed
Next == Add
Spec == Init /\ [][Next]_vars
IsRoot(l) == l = "ROOT"
Holds == corpus # <<>> => BadReduction(corpus, Construct(corpus, packed, IsRoot), <<>>) = {}
=============================================================================
