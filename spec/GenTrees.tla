------------------------------ MODULE GenTrees ------------------------------
(* Writes all trees within the bounds given in the configuration.           *)
EXTENDS Trees, Json, IOUtils
CONSTANTS MaxN, Labs, MaxN1, Unary, Disc
\* all trees up to MaxN leaves with labels Labs, up to MaxN1 with one label
All == UNION {Rooted(TreesOver(0..(n - 1), Labs, Unary, Disc)) : n \in 1..MaxN}
       \cup UNION {Rooted(TreesOver(0..(n - 1), {"A"}, 0, Disc)) : n \in 1..MaxN1}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[t |-> t] : t \in All}))
VARIABLE x
GInit == x = 0
GNext == FALSE /\ UNCHANGED x
=============================================================================
