------------------------------- MODULE GenMC -------------------------------
(* Top-down generation: the first open nonterminal is expanded with any of  *)
(* its rules; done when nothing is open.                                    *)
EXTENDS Gram
CONSTANTS MaxRules
VARIABLES g, agenda, used, pr
vars == <<g, agenda, used, pr>>
P1 == {Prod(<<"S", "A">>, <<<<0>>>>, ""), Prod(<<"S", "A", "B">>, <<<<0, 1>>>>, ""), Prod(<<"S", "B", "A">>, <<<<1, 0>>>>, ""),
       Prod(<<"S", "D", "B">>, <<<<0, 1, 0>>>>, ""), Prod(<<"S", "Epsilon">>, <<>>, "a"),
       Prod(<<"A", "B">>, <<<<0>>>>, ""), Prod(<<"A", "Epsilon">>, <<>>, "a"), Prod(<<"A", "B", "B">>, <<<<0, 1>>>>, ""),
       Prod(<<"D", "A", "B">>, <<<<0>>, <<1>>>>, "")}
Base == <<[p |-> Prod(<<"B", "Epsilon">>, <<>>, "a"), w |-> 1], [p |-> Prod(<<"B", "Epsilon">>, <<>>, "b"), w |-> 2],
          [p |-> Prod(<<"A", "Epsilon">>, <<>>, "c"), w |-> 1], [p |-> Prod(<<"D", "B", "B">>, <<<<1>>, <<0>>>>, ""), w |-> 1]>>
\* extend with rules, in any combination
Seqs1 == UNION {{<<a>> : a \in P1}, {<<a, b>> : a, b \in P1}, IF MaxRules < 3 THEN {} ELSE {<<a, b, c>> : a, b, c \in P1}}
Init == /\ g \in {Base \o [n \in DOMAIN s |-> [p |-> s[n], w |-> n]] : s \in {x \in Seqs1 : IsInjective(x) /\ \E n \in DOMAIN x : x[n].r[1] = "S"}}
        /\ agenda = <<"S">> /\ used = <<>> /\ pr = <<1, 1>>
Next == agenda # <<>> /\ \E n \in DOMAIN g : g[n].p.r[1] = Head(agenda)
   /\ used' = Append(used, n) /\ pr' = Times(pr, ProbOf(g, n)) /\ g' = g
   /\ agenda' = (IF IsLex(g[n].p) THEN <<>> ELSE Tail(g[n].p.r)) \o Tail(agenda)
Spec == Init /\ [][Next]_vars
\* running the rules used as a stack machine (see Lcfrs) derives a sentence
Sentence == LET ps == [n \in DOMAIN used |-> g[used[n]].p] s == Derivation(ps) IN
   IF Len(s) = 1 THEN [m \in DOMAIN s[1].parts[1] |-> ps[s[1].parts[1][m]].w] ELSE <<>>
Sound == agenda = <<>> => [parts |-> <<Sentence>>, pr |-> pr, d |-> used] \in Derivs(g, "S")
\* a proper grammar without recursion: the probabilities sum to one
Total == agenda = <<"S">> => FoldSet(LAMBDA x, acc : Plus(x.pr, acc), <<0, 1>>, Derivs(g, "S")) = <<1, 1>>
=============================================================================
