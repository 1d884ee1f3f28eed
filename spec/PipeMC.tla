------------------------------- MODULE PipeMC -------------------------------
(* Stages one by one, with the parse forest that is at hand and a record of  *)
(* the tree found last, in any outcome for each; what is yielded agrees with *)
(* the definitions that consider the whole sequence.                         *)
EXTENDS Pipeline, TLC
CONSTANT N
VARIABLES stages, found, n, forests, last, partial, yields
vars == <<stages, found, n, forests, last, partial, yields>>
Kinds == [kind : {"plain", "rerank"}, prune : 0..N]
Init == /\ stages \in {s \in [1..N -> Kinds] : \A m \in 1..N : s[m].prune < m
                          /\ (s[m].kind = "rerank" => s[m].prune > 0)}
        /\ found = <<>> /\ n = 0 /\ forests = <<>> /\ last = 0 /\ partial = FALSE /\ yields = <<>>
\* the parse forest or the trees that the stage can use
Input(s) == IF s.prune = 0 THEN TRUE ELSE forests[s.prune]
Emit(what, own) == yields' = Append(yields, what) /\ found' = Append(found, own)
Stage == /\ n < N /\ n' = n + 1
  /\ LET s == stages[n + 1] IN
     \/ /\ Input(s)
        /\ Emit("own", TRUE) /\ last' = n + 1 /\ forests' = Append(forests, TRUE) /\ UNCHANGED partial
     \/ \* nothing found
        /\ IF s.kind = "rerank" \/ partial
           THEN /\ Emit(IF last = 0 THEN "none" ELSE "earlier", FALSE) /\ UNCHANGED <<last, partial>>
           ELSE /\ Emit("parts", FALSE) /\ last' = n + 1 /\ partial' = TRUE
        /\ forests' = Append(forests, FALSE)
  /\ UNCHANGED stages
Next == Stage \/ (n = N /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Here == [m \in 1..n |-> stages[m]]
Agrees == \A m \in 1..n : yields[m] = Yields(Here, found, m)
LastIsSource == n > 0 => last = Source(Here, found, n)
\* every stage has a tree, unless all before it choose among the trees of others
Tree == \A m \in 1..n : Parses(stages[1]) => yields[m] # "none"
OnlyOnce == Cardinality({m \in 1..n : yields[m] = "parts"}) <= 1
IsSound == Sound(Here, found)
=============================================================================
