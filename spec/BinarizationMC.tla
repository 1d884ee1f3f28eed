--------------------------- MODULE BinarizationMC ---------------------------
(* State machine: a tree is binarized with some parameters and restored.    *)
EXTENDS Binarization
CONSTANTS MaxN, Labs, Hs, Vs
VARIABLES orig, p, cur, stage
vars == <<orig, p, cur, stage>>
Shapes == UNION {Rooted(TreesOver(0..(n - 1), Labs, 0, TRUE)) : n \in 1..MaxN}
RECURSIVE WithHead(_, _)
WithHead(t, x) == IF IsTerm(t) THEN t ELSE
  [l |-> t.l, i |-> t.i, hd |-> IF IsPre(t) \/ x < 0 THEN -1 ELSE MinOf(x, Len(t.k) - 1),
   k |-> [n \in DOMAIN t.k |-> WithHead(t.k[n], x)]]
Params == {[factor |-> f, h |-> h, v |-> v, revh |-> r, markhead |-> m, ho |-> ho,
            tail |-> "", lmu |-> u, rmu |-> w, thr |-> 2, artpa |-> TRUE, dot |-> FALSE,
            dir |-> d, filt |-> <<>>, lf |-> FALSE] :
   f \in {"left", "right"}, h \in Hs, v \in Vs, r \in {0, 1}, m \in BOOLEAN,
   ho \in BOOLEAN, u \in BOOLEAN, w \in BOOLEAN, d \in BOOLEAN}
Init == /\ orig \in {WithHead(t, x) : t \in Shapes, x \in {-1, 0, 1, 2}}
        /\ p \in {q \in Params : q.dir => q.ho}
        /\ cur = Plain(orig) /\ stage = "original"
DoBinarize == stage = "original" /\ cur' = Binarize(orig, p) /\ stage' = "binarized"
              /\ UNCHANGED <<orig, p>>
DoUnbinarize == stage = "binarized" /\ cur' = Unbinarize(cur) /\ stage' = "restored"
                /\ UNCHANGED <<orig, p>>
Next == DoBinarize \/ DoUnbinarize
Spec == Init /\ [][Next]_vars
Arity == stage = "binarized" => MaxArity(cur) <= 2
Order == Leaves(cur) = Leaves(orig)
Restored == stage = "restored" => cur = Plain(orig)
\* with an unlimited window and no filter, no generalization is introduced:
\* the label of an artificial node determines the siblings still to come
ArtNodes == {x \in NodeSet(cur) : IsArt(x.l)}
RECURSIVE Bottom(_)
Bottom(x) == Cat([n \in DOMAIN x.k |->
     IF ~IsTerm(x.k[n]) /\ IsArt(x.k[n].l) THEN Bottom(x.k[n]) ELSE <<IF IsTerm(x.k[n]) THEN "" ELSE StripPar(x.k[n].l)>>])
NoGeneralization == (stage = "binarized" /\ p.h = 999 /\ ~p.ho /\ ~p.markhead) =>
   \A x, y \in ArtNodes : x.l = y.l => Bottom(x) = Bottom(y)
=============================================================================
