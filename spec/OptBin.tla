------------------------------- MODULE OptBin -------------------------------
(* Binarizations of a constituent and their scores.  A constituent is given *)
(* by the yields ys[1..n] of its children (disjoint sets of positions) and  *)
(* the scores base[1..n] of the children themselves.                        *)
(* A score is a pair, compared lexicographically: <<complexity, fanout>> or *)
(* <<fanout, complexity>>.                                                  *)
EXTENDS Trees
LexLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Worst(a, b) == IF LexLE(a, b) THEN b ELSE a
Score(cf, u, parts) == \* production with yield u over children with yields parts
  LET f == FanOut(u)
      c == f + FoldLeft(LAMBDA s, p : s + FanOut(p), 0, parts)
  IN IF cf THEN <<c, f>> ELSE <<f, c>>
YieldOf(ys, S) == UNION {ys[n] : n \in S}

(* All ways of binarizing: a binarization of S is a split of S into two     *)
(* parts, recursively.  In head-driven binarization one part is a single    *)
(* non-head child, until only the head remains.                             *)
Splits(S, h) == IF h = 0
  THEN {<<A, S \ A>> : A \in {B \in SUBSET S : Min(S) \in B /\ B # S}}
  ELSE {<<{n}, S \ {n}>> : n \in S \ {h}}

(* The definition: enumerate them.                                          *)
RECURSIVE MaxScores(_, _, _, _, _)
MaxScores(cf, ys, base, h, S) == IF Cardinality(S) = 1 THEN {base[Min(S)]}
  ELSE UNION {{Worst(Score(cf, YieldOf(ys, S), <<YieldOf(ys, p[1]), YieldOf(ys, p[2])>>), Worst(a, b)) :
         a \in MaxScores(cf, ys, base, h, p[1]), b \in MaxScores(cf, ys, base, h, p[2])} :
         p \in Splits(S, h)}
Least(s) == CHOOSE a \in s : \A b \in s : LexLE(a, b)
MinScore(cf, ys, base, h) == Least(MaxScores(cf, ys, base, h, DOMAIN ys))

(* The same by dynamic programming over subsets (shown equal in OptBinMC).  *)
Best(cf, ys, base, h) ==
  LET n == Len(ys)
      subs == {S \in SUBSET (1..n) : S # {} /\ (h = 0 \/ h \in S \/ Cardinality(S) = 1)}
      fan == TLCEval([S \in SUBSET (1..n) |-> FanOut(YieldOf(ys, S))])
      RECURSIVE Level(_, _)
      Level(k, tab) == IF k > n THEN tab
        ELSE Level(k + 1, TLCEval([S \in {T \in subs : Cardinality(T) <= k} |->
          IF S \in DOMAIN tab THEN tab[S]
          ELSE Least({ LET f == fan[S]
                           c == f + fan[p[1]] + fan[p[2]]
                       IN Worst(IF cf THEN <<c, f>> ELSE <<f, c>>, Worst(tab[p[1]], tab[p[2]])) :
                       p \in Splits(S, h)})]))
  IN Level(2, TLCEval([S \in {T \in subs : Cardinality(T) = 1} |-> base[Min(S)]]))[1..n]
=============================================================================
