------------------------------ MODULE HeadsMC ------------------------------
(* Heads assigned to the constituents of a tree in any order; the arcs of a *)
(* constituent are added as soon as the heads below it are known.           *)
EXTENDS Heads
CONSTANTS MaxN
VARIABLES t, lines, todo, arcs
vars == <<t, lines, todo, arcs>>
RECURSIVE Full(_, _)
Full(x, h) == IF IsTerm(x) THEN x ELSE
  LET labs == IF IsPre(x) /\ x.k[1].i % 3 = 1 THEN "CC" ELSE IF IsPre(x) /\ x.k[1].i % 3 = 2 THEN "," ELSE x.l IN
  TLCEval([l |-> labs, i |-> -1, u |-> labs, b |-> labs, m |-> labs, fs |-> <<>>, f |-> "", h |-> FALSE,
           k |-> [c \in DOMAIN x.k |-> Full(x.k[c], h)]])
Heads2 == {<<>>, <<"A">>, <<"CC", "A">>, <<"p", "B">>}
Lines == {<<"A", d, hs>> : d \in Dirs, hs \in Heads2} \cup {<<"B", "LEFT", <<"A">>>>, <<"ROOT", "RIGHT", <<"B", "p">>>>}
Tables == {<<>>} \cup {<<a>> : a \in Lines} \cup {<<a, b>> : a \in {x \in Lines : x[1] = "A"}, b \in {x \in Lines : x[2] \in {"LEFT", "RIGHT"}}}
          \cup {<<a, <<"B", "LIKE", <<"A">>>>>> : a \in Lines}
RECURSIVE Paths(_, _)
Paths(x, p) == IF IsTerm(x) \/ IsPre(x) THEN {} ELSE {p} \cup UNION {Paths(x.k[c], Append(p, c)) : c \in DOMAIN x.k}
RECURSIVE Sub(_, _)
Sub(x, p) == IF p = <<>> THEN x ELSE Sub(x.k[p[1]], Tail(p))
Init == \E n \in 1..MaxN : \E x \in Rooted(TreesOver(0..(n - 1), {"A", "B"}, IF n < 3 THEN 1 ELSE 0, TRUE)) :
   /\ t = Full(x, 0) /\ lines \in Tables /\ todo = Paths(x, <<>>) /\ arcs = {}
\* a constituent is done after the constituents it contains
Ready(p) == \A q \in todo : ~(Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p)
Next == \E p \in todo : Ready(p) /\ todo' = todo \ {p} /\ UNCHANGED <<t, lines>> /\
  LET x == Mark(Sub(t, p), lines, <<>>, "") IN
  arcs' = arcs \cup (IF p = <<>> THEN {<<LexHead(x.k[c]) + 1, "root", 0>> : c \in DOMAIN x.k}
           ELSE {<<LexHead(x.k[c]) + 1, Func(x.k[c]), LexHead(x) + 1>> : c \in DOMAIN x.k \ {x.g}})
Spec == Init /\ [][Next]_vars
N == Cardinality(Yield(t))
OneHead == \A a, b \in arcs : a[1] = b[1] => a = b
Complete == todo = {} => IsDepTree(arcs, N) /\ arcs = Deps(Mark(t, lines, <<>>, ""))
Agreement == todo = {} => \A p \in Paths(t, <<>>) \ {<<>>} : Agree(arcs, Sub(t, p))
=============================================================================
