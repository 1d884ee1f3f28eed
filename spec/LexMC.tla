------------------------------- MODULE LexMC -------------------------------
(* A training corpus is read token by token; in every state the model for   *)
(* the corpus so far should cover every possible test token.                 *)
EXTENDS Lexicon
CONSTANTS MaxToks, Models
VARIABLES sents, thr, open, m
vars == <<sents, thr, open, m>>
Ws == {Ch("a"), Ch("A"), Ch("7"), Ch("1987"), Ch("(")}
TestWs == Ws \cup {Ch("3,5"), Ch("b"), Ch("B"), Ch("1.2.3"), Ch("2001"), Ch("-")}
Tags == {<<"N", "N">>, <<"N-x", "N">>, <<":", "">>}
Q == [sents |-> sents, thr |-> thr, open |-> open, m |-> m]
Init == sents = <<<<>>>> /\ thr \in 0..1 /\ open \in {0, 1, 2, 3} /\ m \in Models
Add(w, t) == sents' = <<Append(sents[1], [w |-> w, t |-> t[1], b |-> t[2]])>>
Next == Len(sents[1]) < MaxToks /\ (\E w \in Ws, t \in Tags : Add(w, t)) /\ UNCHANGED <<thr, open, m>>
Spec == Init /\ [][Next]_vars
Rules == LET mod == Model(Q) IN LexRules(Q, mod, Train(Q, mod))
Inv == sents # <<<<>>>> => LET mod == Model(Q) tr == Train(Q, mod) rules == LexRules(Q, mod, tr) known == Known(rules) IN
   /\ \A w \in TestWs, n \in 0..1 : \E x \in rules : x[2] = TestWord(Q, mod, known, w, n)
   \* mass: for each tag, its frequency plus that of its rare words plus epsilon
   /\ \A t \in mod.tags : FoldSet(LAMBDA x, b : x[3] + b, 0, {x \in rules : x[1] = t[1]})
        = 100 * t[2] + 1 + FoldSet(LAMBDA x, b : 100 * x[2] + b, 0, {x \in mod.wordtags : x[1][2] = t[1] /\ x[1][1] \notin mod.lex})
   \* replacing training words twice makes no difference for known words
   /\ \A n \in DOMAIN tr[1] : IsSig(tr[1][n]) \/ tr[1][n] \in mod.lex \cup {YEAR, NUM}
   \* every signature in the training text was counted
   /\ \A n \in DOMAIN tr[1] : IsSig(tr[1][n]) <=> \E x \in mod.sigs : x[1] = tr[1][n]
=============================================================================
