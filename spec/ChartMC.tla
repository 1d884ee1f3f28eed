------------------------------ MODULE ChartMC ------------------------------
(* Agenda-driven deduction: items are taken from an agenda, best first with *)
(* ties broken arbitrarily, and combined with items taken before.  Whatever *)
(* the order, the chart that results is the closure, every item is taken    *)
(* with its best weight, and every rule application is found exactly once.  *)
EXTENDS Chart
CONSTANTS MaxLen, BySize
B(no, l, r1, r2, yf, w) == [no |-> no, l |-> l, r1 |-> r1, r2 |-> r2, yf |-> yf, w |-> w]
U(no, l, r1, w) == [no |-> no, l |-> l, r1 |-> r1, w |-> w]
L(l, word, w) == [l |-> l, word |-> word, w |-> w]
CF == <<<<0, 1>>>>
Grammars == <<
 \* ambiguous context-free grammar
 [start |-> "R", bin |-> <<B(0, "R", "A", "A", CF, 1), B(1, "A", "A", "A", CF, 2), B(2, "A", "A", "P", CF, 3)>>,
  un |-> <<U(3, "R", "A", 1), U(4, "A", "P", 2)>>, lex |-> <<L("A", "a", 1), L("P", "a", 0), L("P", "b", 1)>>],
 \* unary cycle
 [start |-> "R", bin |-> <<B(0, "A", "A", "B", CF, 1)>>,
  un |-> <<U(1, "R", "A", 0), U(2, "B", "A", 1), U(3, "A", "B", 2), U(4, "B", "C", 1), U(5, "C", "B", 1)>>,
  lex |-> <<L("A", "a", 2), L("C", "b", 1), L("C", "a", 3)>>],
 \* discontinuous constituents
 [start |-> "R", bin |-> <<B(0, "R", "V", "P", <<<<0, 1, 0>>>>, 0), B(1, "V", "V", "Q", <<<<0>>, <<0, 1>>>>, 1),
     B(2, "V", "P", "Q", <<<<0>>, <<1>>>>, 1), B(3, "R", "V", "V", <<<<0, 1, 0, 1>>>>, 1)>>, un |-> <<>>,
  lex |-> <<L("P", "a", 0), L("P", "b", 1), L("Q", "b", 1), L("Q", "a", 2)>>],
 [start |-> "R", bin |-> <<B(0, "R", "V", "V", <<<<0, 1, 0, 1>>>>, 2), B(1, "V", "P", "P", <<<<0>>, <<1>>>>, 0),
     B(2, "R", "R2", "R2", CF, 1)>>,
  un |-> <<U(3, "V", "V2", 1), U(4, "R", "R2", 0), U(5, "R2", "P", 1)>>, lex |-> <<L("P", "a", 0), L("P", "b", 1)>>]
>>
Words == {"a", "b"}
Tok(w) == [w |-> w, lw |-> w, tag |-> ""]
VARIABLES env, full, agenda, chart, edges, twice
vars == <<env, full, agenda, chart, edges, twice>>
W == WeightOf(env)
Init == /\ \E n \in DOMAIN Grammars : \E len \in 1..MaxLen : \E s \in [1..len -> Words] :
            env = [g |-> Grammars[n], sent |-> [m \in 1..len |-> Tok(s[m])], noexp |-> {},
                   use |-> FALSE, map |-> [l \in {} |-> ""], split |-> 0, white |-> {}]
        /\ full = Closure(env)
        /\ agenda = IF ~Covered(env) THEN Empty ELSE
             LET S == UNION {LexItems(env, p) : p \in 0..(Len(env.sent) - 1)} IN
             [x \in {y[1] : y \in S} |-> MinW({y[2] : y \in {y \in S : y[1] = x}})]
        /\ chart = Empty
        /\ edges = IF Covered(env) THEN LexEdges(env) ELSE {}
        /\ twice = FALSE
Prio(x) == agenda[x] + (IF BySize THEN 1000 * SizeOf(x) ELSE 0)
\* rule applications with x as one of the children and the others in the chart
New(x) == UnEdges(env, {x}) \cup
   UNION {LET r == env.g.bin[n] IN
       (IF r.r1 # x[1] THEN {} ELSE {<<<<r.l, Comb(x[2], b[2]).spans>>, r.no, x, b>> :
            b \in {b \in DOMAIN chart : b[1] = r.r2 /\ Fits(r, x, b)}})
       \cup (IF r.r2 # x[1] THEN {} ELSE {<<<<r.l, Comb(a[2], x[2]).spans>>, r.no, a, x>> :
            a \in {a \in DOMAIN chart : a[1] = r.r1 /\ Fits(r, a, x)}})
     : n \in DOMAIN env.g.bin}
Pop == \E x \in DOMAIN agenda :
   /\ \A y \in DOMAIN agenda : Prio(x) <= Prio(y)
   /\ LET c == chart @@ (x :> agenda[x])
          E == New(x)
          rest == [y \in DOMAIN agenda \ {x} |-> agenda[y]]
          heads == {e[1] : e \in E} \ DOMAIN c
          lower(y) == MinW({EdgeW(W, c, e) : e \in {e \in E : e[1] = y}})
      IN /\ chart' = c
         /\ agenda' = [y \in DOMAIN rest \cup heads |-> IF y \notin DOMAIN rest THEN lower(y)
                 ELSE IF y \in heads /\ lower(y) < rest[y] THEN lower(y) ELSE rest[y]]
         /\ twice' = (twice \/ E \cap edges # {})
         /\ edges' = edges \cup E
   /\ UNCHANGED <<env, full>>
Next == Pop
Spec == Init /\ [][Next]_vars
Sound == DOMAIN chart \cup DOMAIN agenda \subseteq DOMAIN full.best /\ edges \subseteq full.edges
Best == \A x \in DOMAIN chart : chart[x] = full.best[x]
Once == ~twice
Complete == agenda = Empty => chart = full.best /\ edges = full.edges
GoalFirst == Goal(env) \in DOMAIN chart => chart[Goal(env)] = full.best[Goal(env)]
\* counts of derivations agree with best weights
Counts == (chart = Empty /\ Acyclic(env.g)) => LET P == InsidePoly(env, full) IN
   /\ DOMAIN P = DOMAIN full.best
   /\ \A x \in DOMAIN P : MinW(DOMAIN P[x]) = full.best[x] /\ \A w \in DOMAIN P[x] : P[x][w] > 0
Terminates == <>(agenda = Empty)
=============================================================================
