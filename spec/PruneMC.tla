------------------------------ MODULE PruneMC ------------------------------
(* Coarse-to-fine pruning.  The whitelist starts as the items of the coarse *)
(* chart that are part of complete derivations; when every fine rule        *)
(* projects to a coarse rule, this does not lose any derivation.  Then      *)
(* items are removed from the whitelist one by one, in any order: the fine  *)
(* chart always has exactly the items with a derivation in which all        *)
(* constituents are allowed, and shrinks monotonically.                     *)
EXTENDS Chart
CONSTANTS MaxLen, MaxCut
B(no, l, r1, r2, yf, w) == [no |-> no, l |-> l, r1 |-> r1, r2 |-> r2, yf |-> yf, w |-> w]
U(no, l, r1, w) == [no |-> no, l |-> l, r1 |-> r1, w |-> w]
L(l, word, w) == [l |-> l, word |-> word, w |-> w]
CF == <<<<0, 1>>>>
Coarse == <<
 [start |-> "R", bin |-> <<B(0, "R", "A", "A", CF, 0), B(1, "A", "A", "P", CF, 0)>>,
  un |-> <<U(2, "R", "A", 0), U(3, "A", "P", 0)>>, lex |-> <<L("P", "a", 0), L("P", "b", 0), L("A", "a", 0)>>],
 [start |-> "R", bin |-> <<B(0, "R", "V", "P", <<<<0, 1, 0>>>>, 0), B(1, "V", "P", "P", <<<<0>>, <<1>>>>, 0),
      B(2, "R", "P", "R", CF, 0)>>, un |-> <<U(3, "R", "P", 0)>>, lex |-> <<L("P", "a", 0), L("P", "b", 0)>>],
 \* split: spans of discontinuous constituents are separate constituents
 [start |-> "R", bin |-> <<B(0, "R", "V*0", "R_", CF, 0), B(1, "R_", "P", "V*1", CF, 0), B(2, "R", "P", "R", CF, 0)>>,
  un |-> <<U(3, "R", "P", 0), U(4, "V*0", "P", 0), U(5, "V*1", "P", 0)>>, lex |-> <<L("P", "a", 0), L("P", "b", 0)>>]
>>
Fine == <<
 [start |-> "R", bin |-> <<B(0, "R", "A", "A@1", CF, 0), B(1, "A", "A@1", "P", CF, 1), B(2, "A@1", "A", "P@1", CF, 1),
                           B(3, "R", "A", "A", CF, 2)>>,
  un |-> <<U(4, "R", "A", 1), U(5, "A", "P", 1), U(6, "A@1", "P@1", 1)>>,
  lex |-> <<L("P", "a", 0), L("P@1", "b", 0), L("P@1", "a", 1), L("A@1", "a", 2)>>],
 [start |-> "R", bin |-> <<B(0, "R", "V", "P", <<<<0, 1, 0>>>>, 0), B(1, "R", "V@1", "P@1", <<<<0, 1, 0>>>>, 1),
      B(2, "V", "P", "P@1", <<<<0>>, <<1>>>>, 0), B(3, "V@1", "P@1", "P", <<<<0>>, <<1>>>>, 0), B(4, "R", "P", "R", CF, 0)>>,
  un |-> <<U(5, "R", "P@1", 0)>>, lex |-> <<L("P", "a", 0), L("P@1", "b", 0), L("P@1", "a", 2)>>],
 [start |-> "R", bin |-> <<B(0, "R", "V", "P", <<<<0, 1, 0>>>>, 0), B(1, "V", "P", "P", <<<<0>>, <<1>>>>, 0),
      B(2, "R", "P", "R", CF, 0)>>, un |-> <<U(3, "R", "P", 0)>>, lex |-> <<L("P", "a", 0), L("P", "b", 0)>>]
>>
Split == <<0, 0, 2>>
Proj(l) == IF Len(l) > 2 /\ SubSeq(l, Len(l) - 1, Len(l)) = "@1" THEN SubSeq(l, 1, Len(l) - 2) ELSE l
LabelsIn(g) == {g.bin[n].l : n \in DOMAIN g.bin} \cup {g.un[n].l : n \in DOMAIN g.un} \cup {g.lex[n].l : n \in DOMAIN g.lex}
Tok(w) == [w |-> w, lw |-> w, tag |-> ""]
Plain(g, s) == [g |-> g, sent |-> [m \in DOMAIN s |-> Tok(s[m])], noexp |-> {},
                use |-> FALSE, map |-> [l \in {} |-> ""], split |-> 0, white |-> {}]
RECURSIVE Reach(_, _, _)
Reach(E, done, todo) == IF todo = {} THEN done ELSE
   LET kids == UNION {{e[3], e[4]} : e \in {e \in E : e[1] \in todo}} \ {NoItem} IN
   Reach(E, done \cup todo, kids \ (done \cup todo))
VARIABLES env, full, chart, cut
vars == <<env, full, chart, cut>>
Init == \E n \in DOMAIN Coarse : \E len \in 1..MaxLen : \E s \in [1..len -> {"a", "b"}] :
   LET c == Closure(Plain(Coarse[n], s)) goal == Goal(Plain(Coarse[n], s)) IN
   /\ goal \in DOMAIN c.best
   /\ env = [Plain(Fine[n], s) EXCEPT !.use = TRUE, !.split = Split[n],
              !.map = TLCEval([l \in LabelsIn(Fine[n]) |-> Proj(l)]), !.white = Reach(c.edges, {}, {goal})]
   /\ full = Closure(Plain(Fine[n], s))
   /\ chart = Closure(env)
   /\ cut = 0
Next == /\ cut < MaxCut /\ cut' = cut + 1 /\ UNCHANGED full
        /\ \E x \in env.white : env' = [env EXCEPT !.white = @ \ {x}]
        /\ chart' = Closure(env')
Spec == Init /\ [][Next]_vars
\* items of the unpruned chart with a derivation of allowed items only
RECURSIVE Good(_)
Good(S) == LET T == S \cup {e[1] : e \in {e \in full.edges : Allowed(env, e[1]) /\ {e[3], e[4]} \ {NoItem} \subseteq S}} IN
   IF T = S THEN S ELSE Good(T)
Exact1 == Covered(env) => DOMAIN chart.best = Good({})
EdgesOk == Covered(env) => chart.edges = {e \in full.edges : Allowed(env, e[1]) /\ {e[3], e[4]} \ {NoItem} \subseteq DOMAIN chart.best}
NoLoss == cut = 0 => LET goal == Goal(env) IN
   /\ (goal \in DOMAIN full.best) = (goal \in DOMAIN chart.best)
   /\ goal \in DOMAIN full.best => chart.best[goal] = full.best[goal] /\ Reach(full.edges, {}, {goal}) \subseteq DOMAIN chart.best
Shrinks == [][DOMAIN chart'.best \subseteq DOMAIN chart.best /\ \A x \in DOMAIN chart'.best : chart'.best[x] >= chart.best[x]]_vars
=============================================================================
