------------------------------ MODULE Unaries ------------------------------
(* Collapsing unary chains into one label, expanding them again, and        *)
(* introducing preterminals for terminals with siblings.                    *)
EXTENDS Binarization

\* a chain of single children is merged into the topmost node
RECURSIVE Squash(_, _)
Squash(t, pos) ==
  IF ~IsTerm(t) /\ Len(t.k) = 1 /\ ~IsTerm(t.k[1]) /\ (pos \/ ~IsTerm(t.k[1].k[1]))
  THEN Squash(Node(t.l \o "+" \o t.k[1].l, t.k[1].k), pos) ELSE t
RECURSIVE CollapseAll(_, _)
CollapseAll(t, pos) == IF IsTerm(t) THEN t ELSE
  LET s == TLCEval(Squash(t, pos))
  IN Node(s.l, [n \in DOMAIN s.k |-> CollapseAll(s.k[n], pos)])
Collapse(t, pos, root) == IF ~root /\ Len(t.k) = 1
  THEN Node(t.l, <<CollapseAll(t.k[1], pos)>>) ELSE CollapseAll(t, pos)
\* no unary chains remain other than those kept on request
NoChains(t, pos, root) == \A x \in NodeSet(t) :
  (Len(x.k) = 1 /\ ~IsTerm(x.k[1])) => (~pos /\ IsPre(x.k[1])) \/ (~root /\ x = t)

RECURSIVE IntroPre(_, _)
IntroPre(t, sent) == IF IsTerm(t) THEN t ELSE
  Node(t.l, [n \in DOMAIN t.k |->
     IF IsTerm(t.k[n]) THEN
        IF Len(t.k) > 1 THEN Node(t.l \o "/" \o sent[t.k[n].i + 1], <<t.k[n]>>) ELSE t.k[n]
     ELSE IntroPre(t.k[n], sent)])
AllPre(t) == \A x \in NodeSet(t) : (\E n \in DOMAIN x.k : IsTerm(x.k[n])) => Len(x.k) = 1

HDParams == [factor |-> "right", h |-> 999, v |-> 1, revh |-> 0, markhead |-> FALSE,
             ho |-> FALSE, tail |-> "", lmu |-> FALSE, rmu |-> TRUE, thr |-> 1,
             artpa |-> TRUE, dot |-> FALSE, dir |-> FALSE, filt |-> <<>>, lf |-> FALSE]
RECURSIVE HandleDisc(_)
HandleDisc(t) == IF IsTerm(t) THEN t
  ELSE IF Len(t.k) > 1 /\ IsTerm(t.k[1])
       THEN Bin([l |-> t.l, i |-> -1, k |-> t.k, hd |-> -1], HDParams, <<>>, TRUE)
       ELSE Node(t.l, [n \in DOMAIN t.k |-> HandleDisc(t.k[n])])
=============================================================================
