---------------------------- MODULE FragGrammarMC ---------------------------
(* Fragments are added to a grammar one by one; every fragment added so far *)
(* is always recovered from its rule.                                       *)
EXTENDS FragGrammar
CONSTANTS MaxN, MaxFrags, Flat
VARIABLES frags, first, rules, ids
vars == <<frags, first, rules, ids>>
RECURSIVE Fan(_)
Fan(x) == IF IsTerm(x) THEN x ELSE LET f == FanOut(Yield(x)) IN
   Node(IF f > 1 THEN x.l \o "_" \o ToString(f) ELSE x.l, [n \in DOMAIN x.k |-> Fan(x.k[n])])
\* cut off constituents: positions below them are without words
RECURSIVE Cuts(_)
Cuts(x) == IF IsPre(x) THEN {x, Node("q", x.k)} ELSE {Node(x.l, c) : c \in Tuples([n \in DOMAIN x.k |-> Cuts(x.k[n]) \cup
      (IF IsPre(x.k[n]) THEN {} ELSE {Node(x.k[n].l, [m \in DOMAIN SetToSortSeq(Yield(x.k[n]), LAMBDA a, b : a < b) |-> Term(SetToSortSeq(Yield(x.k[n]), LAMBDA a, b : a < b)[m])])})])}
WordsFor(x, n) == [m \in 1..n |-> IF \E y \in NodeSet(x) : y.l = "q" /\ y.k[1].i = m - 1 THEN "a" ELSE "None"]
\* flat fragments: a root over units of any configuration
Units_(n) == UNION {{Node("S", [b \in 1..Cardinality(p) |-> LET s == SetToSortSeq(p, LAMBDA a, c : Min(a) < Min(c))[b] IN
       Node(IF FanOut(s) > 1 THEN "X_" \o ToString(FanOut(s)) ELSE "X", [m \in 1..Cardinality(s) |-> Term(SetToSortSeq(s, LAMBDA a, c : a < c)[m])])])} :
       p \in {q \in SetPartitions(0..(n - 1)) : Cardinality(q) > 3 /\ \A s \in q : \A y \in s : y + 1 \notin s}}
Pool == IF Flat THEN {[t |-> x, s |-> [m \in 1..MaxN |-> "None"]] : x \in Units_(MaxN)}
        ELSE UNION {{[t |-> y, s |-> WordsFor(y, n)] : y \in UNION {Cuts(Fan(x)) : x \in Rooted(TreesOver(0..(n - 1), {"A"}, 0, TRUE))}} : n \in 1..MaxN}
Init == frags = <<>> /\ first = <<>> /\ rules = {} /\ ids = <<>>
Add == Len(frags) < MaxFrags /\ \E f \in Pool : LET r == Flatten(f, ids) IN
   /\ f \notin ToSet(frags)
   /\ frags' = Append(frags, f) /\ first' = Append(first, r.rules[1])
   /\ rules' = rules \cup ToSet(r.rules) /\ ids' = r.ids
Next == Add
Spec == Init /\ [][Next]_vars
Art == {r.r[1] : r \in rules} \ {f.t.l : f \in ToSet(frags)}
Inv == \A n \in DOMAIN frags : Single(frags[n]) \/ Recovers(rules, Art, first[n], frags[n])
Distinct == \A n, m \in DOMAIN frags : n < m => first[n] # first[m]
\* filling the template gives the fragment
Refill == \A n \in DOMAIN frags : Single(frags[n]) \/ Fill(Units(frags[n]), TemplateOf(frags[n])) = frags[n].t
=============================================================================
