------------------------------- MODULE TagMC -------------------------------
(* For all small grammars: rewriting trees by substitution (leftmost first) *)
(* and adjunction, in any order, derives exactly the trees, with the same   *)
(* weights, as the rules of the reduction (up to N rules); and splitting an  *)
(* elementary tree is undone by adjoining.                                  *)
EXTENDS Tag
CONSTANTS N, Trees2
VARIABLES I, A, todo, done
vars == <<I, A, todo, done>>
T0 == Term(0)
T1 == Term(1)
T2 == Term(2)
E1(t, s, w) == [t |-> t, s |-> s, w |-> w]
Inits == {
  E1(Node("S", <<Node("S", <<Node("N", <<T0>>)>>), Node("N", <<T1>>)>>), <<"a", "b">>, 2),
  E1(Node("S", <<Node("N", <<T0>>)>>), <<"a">>, 3),
  E1(Node("S", <<Node("S", <<T0>>), Node("N", <<T1>>)>>), <<"None", "a">>, 5),
  E1(Node("S", <<Node("X", <<Node("N", <<T0>>)>>), Node("S", <<T1>>)>>), <<"b", "None">>, 1),
  E1(Node("X", <<Node("X", <<Node("N", <<T0>>)>>)>>), <<"a">>, 1)}
Auxs == {
  E1(Node("S", <<Node("S", <<T0>>), Node("N", <<T1>>)>>), <<"*", "b">>, 2),
  E1(Node("S", <<Node("S", <<Node("S", <<T0>>), Node("N", <<T1>>)>>)>>), <<"*", "a">>, 3),
  E1(Node("S", <<Node("X", <<Node("N", <<T0>>)>>), Node("S", <<T1>>)>>), <<"a", "*">>, 7),
  E1(Node("X", <<Node("X", <<T0>>), Node("S", <<T1>>)>>), <<"*", "None">>, 2),
  E1(Node("X", <<Node("S", <<Node("N", <<T0>>)>>), Node("X", <<T1>>)>>), <<"b", "*">>, 2)}
ASSUME \A e \in Inits : IsInit(e)
ASSUME \A e \in Auxs : IsAux(e)
ToSeq(S) == SetToSeq(S)
Item(d, w, n) == [d |-> d, w |-> w, n |-> n]
Init == \E S \in SUBSET Inits, B \in SUBSET Auxs :
  /\ Cardinality(S) \in 1..Trees2 /\ Cardinality(B) \in 0..Trees2
  /\ I = ToSeq(S) /\ A = ToSeq(B)
  /\ todo = {Item(InitInst(I, n), I[n].w, 0) : n \in {m \in DOMAIN I : I[m].t.l = "S"}}
  /\ done = {}
\* number of rules: one for each node and one for each adjunction (n); open
\* sites count, as at least one node will be there
Fits(x) == Size(x.d) + x.n <= N
Steps(x) == {Item(y.d, x.w * y.w, x.n) : y \in SubstFirst(x.d, I, A)}
            \cup {Item(y.d, x.w * y.w, x.n + 1) : y \in Adjoins(x.d, A)}
Next == /\ todo # {}
        /\ LET new == {y \in UNION {Steps(x) : x \in {z \in todo : Fits(z)}} : Fits(y)} IN
           /\ done' = done \cup {x \in todo : Fits(x)}
           /\ todo' = new \ done'
        /\ UNCHANGED <<I, A>>
Spec == Init /\ [][Next]_vars
\* each derivation is found once: the annotated tree identifies it
Total(S) == FoldSet(LAMBDA x, acc : acc + x.w, 0, S)
Bag(S) == [p \in {Plain(x.d) : x \in S} |-> Total({x \in S : Plain(x.d) = p})]
Complete(n) == {x \in done : ~HasOpen(x.d) /\ Size(x.d) + x.n = n}
Agrees == todo = {} => LET T == Language(Reduction(I, A, 1), N) IN
  \A n \in 1..N : Bag(Complete(n)) = (IF L("S") \in DOMAIN T[n] THEN T[n][L("S")] ELSE NoTrees)
\* every weighted tree is derived by one derivation with that weight only
Unique == \A x, y \in done : x.d = y.d => x.w = y.w /\ x.n = y.n
-----------------------------------------------------------------------------
\* elementary trees that can be split: derived trees of the grammars
Words == <<"a", "None", "b", "None">>
RECURSIVE Elem(_, _)
\* all trees over positions lo..hi with labels S and X, depth bounded
Elem(n, lo) == IF n = 1 THEN {Node("N", <<Term(lo)>>)} \cup {Node("X", <<Node("N", <<Term(lo)>>)>>)}
  ELSE UNION {{Node(b, <<x, y>>) : x \in Elem(m, lo), y \in Elem(n - m, lo + m), b \in {"S", "X"}} : m \in 1..(n - 1)}
SplitOK(e) == \A sp \in ToSet(Splits(e)) :
  LET a0 == AuxOf(e, sp) i0 == InitOf(e, sp) IN
  /\ IsAux(a0) /\ IsInit(i0)
  /\ Leaves(a0.t) = [m \in 1..Len(a0.s) |-> m - 1] /\ Leaves(i0.t) = [m \in 1..Len(i0.s) |-> m - 1]
  /\ BareD(Rejoin(i0, a0, sp.top)) = BareD(Tree0(e))
ASSUME \A n \in 1..4 : \A t \in Elem(n, 0) : SplitOK([t |-> Node("S", <<t>>), s |-> SubSeq(Words, 1, n), w |-> 1])
=============================================================================
