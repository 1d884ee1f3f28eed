------------------------------ MODULE InsideMC ------------------------------
(* Summing over all derivations.  The items of a chart are visited depth    *)
(* first, starting from any item not visited yet and following edges in any *)
(* order; an item is finished after the items it depends on.  In the order  *)
(* in which items are finished, inside scores can be computed, and in the   *)
(* reverse order outside scores; together they give for every item the      *)
(* weights of exactly the derivations of the goal in which it occurs, as    *)
(* found by enumeration of all derivation trees.                            *)
EXTENDS Chart
CONSTANTS MaxLen, Free
B(no, l, r1, r2, yf, w) == [no |-> no, l |-> l, r1 |-> r1, r2 |-> r2, yf |-> yf, w |-> w]
U(no, l, r1, w) == [no |-> no, l |-> l, r1 |-> r1, w |-> w]
L(l, word, w) == [l |-> l, word |-> word, w |-> w]
CF == <<<<0, 1>>>>
Grammars == <<
 [start |-> "R", bin |-> <<B(0, "R", "A", "A", CF, 1), B(1, "A", "A", "A", CF, 2), B(2, "A", "A", "P", CF, 3)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 2)>>, lex |-> <<L("A", "a", 1), L("P", "a", 0), L("P", "b", 1)>>],
 [start |-> "R", bin |-> <<B(0, "R", "A", "R", CF, 1), B(1, "A", "P", "P", CF, 1), B(2, "R", "A", "A", CF, 1)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 1), U(5, "R", "P", 2)>>, lex |-> <<L("R", "a", 4), L("P", "a", 1), L("P", "b", 1)>>],
 [start |-> "R", bin |-> <<B(0, "R", "V", "V", <<<<0, 1, 0, 1>>>>, 2), B(1, "V", "P", "P", <<<<0>>, <<1>>>>, 0),
     B(2, "R", "R2", "R2", CF, 1), B(3, "R2", "R2", "R2", CF, 0)>>,
  un |-> <<U(4, "V", "V2", 1), U(5, "R", "R2", 0), U(6, "R2", "P", 1)>>, lex |-> <<L("P", "a", 0), L("P", "b", 1), L("R2", "b", 0)>>]
>>
Tok(w) == [w |-> w, lw |-> w, tag |-> ""]
VARIABLES env, C, stack, seen, order
vars == <<env, C, stack, seen, order>>
W == WeightOf(env)
Kids(x) == UNION {{e[3], e[4]} : e \in {e \in C.edges : e[1] = x}} \ {NoItem}
Init == /\ \E n \in DOMAIN Grammars : \E len \in 1..MaxLen : \E s \in [1..len -> {"a", "b"}] :
            env = [g |-> Grammars[n], sent |-> [m \in 1..len |-> Tok(s[m])], noexp |-> {},
                   use |-> FALSE, map |-> [l \in {} |-> ""], split |-> 0, white |-> {}]
        /\ C = Closure(env)
        /\ stack = <<>> /\ seen = {} /\ order = <<>>
Items == DOMAIN C.best
\* start from any item (any of the first Free times)
Start == /\ stack = <<>> /\ Items \ seen # {}
         /\ \E x \in IF Len(order) <= Free THEN Items \ seen ELSE {CHOOSE x \in Items \ seen : TRUE} : stack' = <<x>>
         /\ UNCHANGED <<env, C, seen, order>>
Visit == /\ stack # <<>> /\ Last(stack) \notin seen
         /\ seen' = seen \cup {Last(stack)}
         /\ LET todo == Kids(Last(stack)) \ seen' IN
            stack' = stack \o SetToSeq(todo)
         /\ UNCHANGED <<env, C, order>>
Finish == /\ stack # <<>> /\ Last(stack) \in seen
          /\ stack' = Front(stack)
          /\ order' = IF Last(stack) \in ToSet(order) THEN order ELSE Append(order, Last(stack))
          /\ UNCHANGED <<env, C, seen>>
Next == Start \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars
Topological == \A n \in DOMAIN order : Kids(order[n]) \subseteq {order[m] : m \in 1..(n - 1)}
Done == stack = <<>> /\ Items \ seen = {}
Complete == Done => ToSet(order) = Items /\ Len(order) = Cardinality(Items)
\* the sums, in the order found
Inside == TLCEval(FoldLeft(LAMBDA P, x : P @@ (x :> FoldSet(LAMBDA e, acc : Plus(acc, EdgePoly(env, W, P, e)), Empty,
                {e \in C.edges : e[1] = x})), [x \in {} |-> Empty], order))
\* all derivation trees of an item
RECURSIVE TreesOf(_)
TreesOf(x) == UNION {IF e[2] = -1 THEN {<<e>>} ELSE IF e[4] = NoItem THEN {<<e, t>> : t \in TreesOf(e[3])}
   ELSE {<<e, t[1], t[2]>> : t \in TreesOf(e[3]) \X TreesOf(e[4])} : e \in {e \in C.edges : e[1] = x}}
RECURSIVE TreeW(_)
TreeW(t) == IF Len(t) = 1 THEN LexW(env, t[1][1]) ELSE IF Len(t) = 2 THEN W[t[1][2]] + TreeW(t[2])
   ELSE W[t[1][2]] + TreeW(t[2]) + TreeW(t[3])
RECURSIVE Occurs(_, _)
Occurs(x, t) == (IF t[1][1] = x THEN 1 ELSE 0) + (IF Len(t) = 1 THEN 0 ELSE Occurs(x, t[2]) + (IF Len(t) = 2 THEN 0 ELSE Occurs(x, t[3])))
ByWeight(T) == TLCEval([w \in {TreeW(t) : t \in T} |-> Cardinality({t \in T : TreeW(t) = w})])
Exact1 == (Done /\ Items # {}) => LET P == Inside IN
   /\ P = InsidePoly(env, C)
   /\ \A x \in Items : P[x] = ByWeight(TreesOf(x))
   /\ Goal(env) \in Items => LET O == OutsidePoly(env, C, P) T == TLCEval(TreesOf(Goal(env))) IN
        \A x \in Items : Times(P[x], O[x]) = ByWeight({t \in T : Occurs(x, t) > 0})
\* no posterior above one; digits represent the sum
Post == (Done /\ Goal(env) \in Items) => LET P == InsidePoly(env, C) O == OutsidePoly(env, C, P) g == Norm(P[Goal(env)]) IN
   \A x \in Items : ~Greater(Norm(Times(P[x], O[x])), g)
=============================================================================
