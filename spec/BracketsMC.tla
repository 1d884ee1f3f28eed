----------------------------- MODULE BracketsMC -----------------------------
(* The parser as a state machine over all texts up to some length, and      *)
(* printing as its inverse.                                                 *)
EXTENDS Brackets
CONSTANTS MaxTok, Labs, MaxN
VARIABLES toks, st
Toks == {<<"(", l>> : l \in Labs} \cup {<<")", "">>, <<"w", "x">>}
Init == toks = <<>> /\ st = State0
Next == /\ Len(toks) < MaxTok /\ ~st.err
        /\ \E k \in Toks : toks' = Append(toks, k) /\ st' = Shift(st, k)
Spec == Init /\ [][Next]_<<toks, st>>
Count(c) == Cardinality({n \in DOMAIN toks : toks[n][1] = c})
Balance == ~st.err => Len(st.stack) = Count("(") - Count(")")
Accepted == (~st.err /\ st.stack = <<>> /\ st.done # <<>>)
\* an accepted text is the print of its tree
Text == Cat([n \in DOMAIN toks |-> <<toks[n]>>])
RECURSIVE Unparse(_)
Unparse(t) == IF IsTerm(t) THEN <<<<"w", "x">>>>
   ELSE <<<<"(", t.l>>>> \o Cat([n \in DOMAIN t.k |-> Unparse(t.k[n])]) \o <<<<")", "">>>>
Faithful == Accepted => Unparse(st.done[1]) = toks
                        /\ Leaves(st.done[1]) = [n \in DOMAIN st.words |-> n - 1]
\* once a tree is complete, anything more is an error
OneTree == (st.done # <<>> /\ ~st.err) => st.stack = <<>>
ASSUME \A n \in 1..MaxN : \A t \in TreesOver(0..(n - 1), Labs, 1, FALSE) :
   LET sent == [m \in 1..n |-> IF m % 2 = 0 THEN "a(b" ELSE ")"] p == Parse(Bracketed(t, sent)) IN
   p.ok /\ p.t = t /\ p.words = [m \in 1..n |-> EscTok(sent[m])]
=============================================================================
