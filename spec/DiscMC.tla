------------------------------- MODULE DiscMC -------------------------------
(* State machine: a tree is split, or raised, and merged again.             *)
EXTENDS Disc
CONSTANTS MaxN, Labs, MaxN1
VARIABLES orig, mark, cur, stage
vars == <<orig, mark, cur, stage>>
Shapes == UNION {Rooted(TreesOver(0..(n - 1), Labs, 0, TRUE)) : n \in 1..MaxN}
   \cup UNION {Rooted(TreesOver(0..(n - 1), {"A"}, 0, TRUE)) : n \in 1..MaxN1}
Init == orig \in Shapes /\ mark \in BOOLEAN /\ cur = orig /\ stage = "original"
DoSplit == stage = "original" /\ cur' = Split(cur, mark) /\ stage' = "split"
DoMerge == stage = "split" /\ cur' = Merge(cur) /\ stage' = "merged"
DoRaise == stage = "original" /\ cur' = Raise(cur) /\ stage' = "raised"
DoMark == stage = "original" /\ cur' = Mark(cur) /\ stage' = "marked"
Next == (DoSplit \/ DoMerge \/ DoRaise \/ DoMark) /\ UNCHANGED <<orig, mark>>
Spec == Init /\ [][Next]_vars
Tokens == Yield(cur) = Yield(orig) /\ WellFormed(cur)
IsContinuous == stage \in {"split", "raised"} => AllContinuous(cur)
Ordered == IsCanonical(cur)
\* splitting keeps the number of components: one per run of each constituent
Count == stage = "split" => Len(Nodes(cur)) = FoldLeft(LAMBDA a, b : a + b, 0, TLCEval([n \in DOMAIN Nodes(orig) |->
           FanOut(Yield(Nodes(orig)[n]))]))
\* raising keeps every constituent exactly once
KeepsLabels == stage = "raised" =>
    LET a == Labels(cur) b == Labels(orig) IN
    \A l \in ToSet(a) \cup ToSet(b) : Cardinality({n \in DOMAIN a : a[n] = l})
                                    = Cardinality({n \in DOMAIN b : b[n] = l})
Restored == (stage = "merged" /\ Identified(orig)) => cur = orig
=============================================================================
