----------------------------- MODULE GenForests -----------------------------
(* Writes all ordered forests over a few nodes (with leaves below some).    *)
EXTENDS Forest, Json, IOUtils
CONSTANTS N, MaxKids
Vals == 1..N \cup {-1}
Seqs == UNION {[1..m -> Vals] : m \in 0..MaxKids}
Forests == {f \in [1..N -> Seqs] :
   LET st == [labs |-> [n \in 1..N |-> "A"], kids |-> f] IN
   /\ \A n \in 1..N : Cardinality({<<p, m>> \in (1..N) \X (1..MaxKids) : m <= Len(f[p]) /\ f[p][m] = n}) <= 1
   /\ \A n \in 1..N : f[n] # <<-1, -1>>
   /\ \A n \in 1..N : ~Contains(f[n], n)
   /\ \A n, m \in 1..N : ~(Contains(f[n], m) /\ Contains(f[m], n))
   /\ \A a, b, c \in 1..N : ~(Contains(f[a], b) /\ Contains(f[b], c) /\ Contains(f[c], a))
   /\ IsForest(st)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[kids |-> f] : f \in Forests}))
VARIABLE x
GInit == x = 0
GNext == FALSE /\ UNCHANGED x
=============================================================================
