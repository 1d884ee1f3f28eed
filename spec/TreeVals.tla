------------------------------ MODULE TreeVals ------------------------------
(* Trees as values: equality, order, index paths, traversals, edits by path *)
EXTENDS Trees
LabelRank(l) == CHOOSE n \in 1..6 : <<"", "A", "B", "C", "D", "ROOT">>[n] = l
RECURSIVE Cmp(_, _)
RECURSIVE CmpSeq(_, _, _)
\* -1, 0, 1; terminals come before constituents
Cmp(a, b) == IF IsTerm(a) /\ IsTerm(b) THEN (IF a.i < b.i THEN -1 ELSE IF a.i > b.i THEN 1 ELSE 0)
  ELSE IF IsTerm(a) THEN -1 ELSE IF IsTerm(b) THEN 1
  ELSE LET x == LabelRank(a.l) y == LabelRank(b.l) IN
       IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpSeq(a.k, b.k, 1)
CmpSeq(s, t, n) == IF n > Len(s) /\ n > Len(t) THEN 0
  ELSE IF n > Len(s) THEN -1 ELSE IF n > Len(t) THEN 1
  ELSE LET c == Cmp(s[n], t[n]) IN IF c # 0 THEN c ELSE CmpSeq(s, t, n + 1)
Prefix(n, ps) == [m \in DOMAIN ps |-> <<n>> \o ps[m]]
\* index paths (from 0) of all nodes and terminals
RECURSIVE PrePaths(_)
PrePaths(t) == IF IsTerm(t) THEN <<<<>>>> ELSE
   <<<<>>>> \o Cat([n \in DOMAIN t.k |-> Prefix(n - 1, PrePaths(t.k[n]))])
RECURSIVE PostPaths(_)
PostPaths(t) == IF IsTerm(t) THEN <<<<>>>> ELSE
   Cat([n \in DOMAIN t.k |-> Prefix(n - 1, PostPaths(t.k[n]))]) \o <<<<>>>>
RECURSIVE BothPaths(_)
BothPaths(t) == IF IsTerm(t) THEN <<<<>>>> ELSE
   <<<<>>>> \o Cat([n \in DOMAIN t.k |-> Prefix(n - 1, BothPaths(t.k[n]))]) \o <<<<>>>>
RECURSIVE LeafPaths(_)
LeafPaths(t) == IF IsTerm(t) THEN <<<<>>>> ELSE
   Cat([n \in DOMAIN t.k |-> Prefix(n - 1, LeafPaths(t.k[n]))])
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.k[p[1] + 1], Tail(p))
RECURSIVE Replace(_, _, _)
Replace(t, p, x) == IF p = <<>> THEN x
   ELSE Node(t.l, [t.k EXCEPT ![p[1] + 1] = Replace(@, Tail(p), x)])
RECURSIVE Delete(_, _)
Delete(t, p) == IF Len(p) = 1 THEN Node(t.l, RemoveAt(t.k, p[1] + 1))
   ELSE Node(t.l, [t.k EXCEPT ![p[1] + 1] = Delete(@, Tail(p))])
RECURSIVE Height(_)
Height(t) == IF IsTerm(t) THEN 1 ELSE 1 + Max({0} \cup {Height(t.k[n]) : n \in DOMAIN t.k})
\* preterminals (nodes with terminals as children), each with its terminals
RECURSIVE Pos(_)
Pos(t) == IF IsTerm(t) THEN <<>> ELSE
   Cat([n \in DOMAIN t.k |-> IF IsTerm(t.k[n]) THEN <<<<t.k[n].i, t.l>>>> ELSE Pos(t.k[n])])
\* longest common prefix
RECURSIVE Common(_, _)
Common(p, q) == IF p = <<>> \/ q = <<>> \/ p[1] # q[1] THEN <<>>
                ELSE <<p[1]>> \o Common(Tail(p), Tail(q))
\* lowest node dominating terminals a..b-1 (by number in tree order)
Spanning(t, a, b) == Common(LeafPaths(t)[a + 1], LeafPaths(t)[b])
\* a discontinuous tree with its sentence
RECURSIVE Lex(_, _)
Lex(t, s) == IF IsTerm(t) THEN [l |-> s[t.i + 1], i |-> 0, k |-> <<>>]
             ELSE Node(t.l, [n \in DOMAIN t.k |-> Lex(t.k[n], s)])
=============================================================================
