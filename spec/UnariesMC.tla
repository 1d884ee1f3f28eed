----------------------------- MODULE UnariesMC -----------------------------
EXTENDS Unaries
CONSTANTS MaxN, Labs, Un
VARIABLES orig, pos, root, cur, stage
vars == <<orig, pos, root, cur, stage>>
Init == /\ orig \in UNION {Rooted(TreesOver(0..(n - 1), Labs, Un, TRUE)) : n \in 1..MaxN}
        /\ pos \in BOOLEAN /\ root \in BOOLEAN /\ cur = orig /\ stage = "original"
DoCollapse == stage = "original" /\ cur' = Collapse(orig, pos, root) /\ stage' = "collapsed"
              /\ UNCHANGED <<orig, pos, root>>
DoExpand == stage = "collapsed" /\ cur' = Expand(cur) /\ stage' = "expanded"
            /\ UNCHANGED <<orig, pos, root>>
Next == DoCollapse \/ DoExpand
Spec == Init /\ [][Next]_vars
Chains == stage = "collapsed" => NoChains(cur, pos, root)
Order == Leaves(cur) = Leaves(orig)
Restored == stage = "expanded" => cur = orig
=============================================================================
