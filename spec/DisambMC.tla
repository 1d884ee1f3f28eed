------------------------------ MODULE DisambMC ------------------------------
(* Derivations as a process: substitute a fragment for the leftmost open     *)
(* node until none is left.  Reading the resulting tree as tiled by          *)
(* fragments must give exactly the derivations that produce it.              *)
EXTENDS Disamb
CONSTANTS MaxSteps, MaxLen
VARIABLES tree, used
vars == <<tree, used>>
U(l, n) == Node(l, <<Term(n)>>)
Fr(t, s, w) == [f |-> [t |-> t, s |-> s], w |-> w]
O == "None"
F == << Fr(Node("S", <<U("A", 0), U("B", 1)>>), <<O, O>>, 1),
        Fr(Node("S", <<U("A", 0), Node("B", <<U("B", 1), U("A", 2)>>)>>), <<O, O, O>>, 2),
        Fr(Node("S", <<Node("A", <<U("p", 0)>>), U("B", 1)>>), <<"a", O>>, 2),
        Fr(Node("A", <<U("p", 0)>>), <<"a">>, 1),
        Fr(Node("A", <<U("p", 0)>>), <<O>>, 1),
        Fr(Node("B", <<U("B", 0), U("A", 1)>>), <<O, O>>, 1),
        Fr(Node("B", <<U("B", 0), Node("A", <<U("p", 1)>>)>>), <<O, O>>, 2),
        Fr(Node("B", <<U("p", 0)>>), <<"b">>, 2),
        Fr(U("p", 0), <<"a">>, 1), Fr(U("p", 0), <<"b">>, 1) >>
IsOpenLeaf(x) == x.i < 0 /\ x.k = <<>>
\* a word is stored as the label of a terminal; positions are given later
RECURSIVE Leftmost(_), Put(_, _), Body(_, _), OpenCount(_), Words(_), Number(_, _), LeafCount(_)
Body(f, x) == IF IsUnit(x) THEN IF Lexical(f, x) THEN [l |-> x.l, i |-> -1, k |-> <<[l |-> WordOf(f, x), i |-> 0, k |-> <<>>]>>] ELSE [l |-> x.l, i |-> -1, k |-> <<>>]
  ELSE [l |-> x.l, i |-> -1, k |-> TLCEval([n \in DOMAIN x.k |-> Body(f, x.k[n])])]
OpenCount(x) == IF IsOpenLeaf(x) THEN 1 ELSE FoldLeft(LAMBDA a, b : a + OpenCount(b), 0, x.k)
LeafCount(x) == IF x.k = <<>> THEN 1 ELSE FoldLeft(LAMBDA a, b : a + LeafCount(b), 0, x.k)
Leftmost(x) == IF IsOpenLeaf(x) THEN x.l ELSE Leftmost(x.k[MinOf({n \in DOMAIN x.k : OpenCount(x.k[n]) > 0})])
Put(x, b) == IF IsOpenLeaf(x) THEN b ELSE LET n == MinOf({m \in DOMAIN x.k : OpenCount(x.k[m]) > 0}) IN [x EXCEPT !.k[n] = Put(@, b)]
Init == tree = [l |-> "S", i |-> -1, k |-> <<>>] /\ used = <<>>
Next == /\ OpenCount(tree) > 0 /\ Len(used) < MaxSteps
        /\ \E n \in DOMAIN F : F[n].f.t.l = Leftmost(tree)
             /\ LET t == Put(tree, Body(F[n].f, F[n].f.t)) IN LeafCount(t) <= MaxLen /\ tree' = t
             /\ used' = Append(used, n)
Spec == Init /\ [][Next]_vars
Words(x) == IF x.i >= 0 THEN <<x.l>> ELSE Cat([n \in DOMAIN x.k |-> Words(x.k[n])])
Number(x, from) == IF x.i >= 0 THEN Term(from)
  ELSE Node(x.l, [n \in DOMAIN x.k |-> Number(x.k[n], from + FoldLeft(LAMBDA a, b : a + LeafCount(b), 0, SubSeq(x.k, 1, n - 1)))])
Complete == OpenCount(tree) = 0
RECURSIVE Replay(_, _)
Replay(t, s) == IF s = <<>> THEN t ELSE IF OpenCount(t) = 0 \/ F[s[1]].f.t.l # Leftmost(t) THEN <<>>
  ELSE Replay(Put(t, Body(F[s[1]].f, F[s[1]].f.t)), Tail(s))
Inv == Complete =>
  LET ws == Words(tree) t == Number(tree, 0)
      T == TLCEval(Tilings(F, t, ws))
      D == [n \in DOMAIN T |-> [w |-> TileW(F, T[n]), n |-> Len(T[n])]]
  IN /\ IsInjective(T)
     /\ used \in ToSet(T)
     /\ \A n \in DOMAIN T : Replay([l |-> "S", i |-> -1, k |-> <<>>], T[n]) = tree
     /\ AtLeast(Prob(Weights(D)), {BestW(D)})
     /\ BestW(ShortOnes(D)) >= BestW(D)
=============================================================================
