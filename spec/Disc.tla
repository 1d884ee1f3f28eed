------------------------------- MODULE Disc -------------------------------
(* Discontinuous nodes: splitting them into continuous components, merging  *)
(* the components again, raising (keeping only the component with the       *)
(* lexical head), yields, fan-out and canonical order.                      *)
(* Nodes of an input tree may carry hd, the index of the head child or -1.  *)
EXTENDS Trees
Hd(t) == IF "hd" \in DOMAIN t THEN t.hd ELSE -1
RECURSIVE Plain(_)
Plain(t) == IF IsTerm(t) THEN Term(t.i) ELSE Node(t.l, [n \in DOMAIN t.k |-> Plain(t.k[n])])
RunSets(S) == LET r == Runs(S) IN [n \in DOMAIN r |-> r[n][1]..r[n][2]]
ByFirst(ks) == SortSeq(TLCEval(ks), LAMBDA a, b : First(a) < First(b))
In(ks, R) == ByFirst(SelectSeq(ks, LAMBDA c : First(c) \in R))
\* the continuous components of t, in order
RECURSIVE Components(_, _)
Components(t, mark) == IF IsTerm(t) THEN <<t>> ELSE
  LET kids == Cat([n \in DOMAIN t.k |-> Components(t.k[n], mark)])
      rs == RunSets(Yield(t))
  IN IF Len(rs) <= 1 THEN <<Node(t.l, ByFirst(kids))>>
     ELSE [n \in DOMAIN rs |-> Node(t.l \o "*" \o (IF mark THEN ToString(n - 1) ELSE ""),
                                    In(kids, rs[n]))]
\* the root itself is never split
Split(t, mark) == Node(t.l, ByFirst(Cat([n \in DOMAIN t.k |-> Components(t.k[n], mark)])))

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(s, n) == SubSeq(s, n, n)
NumVal(s) == CHOOSE n \in 0..999 : ToString(n) = s
\* position of the star of a label X*n or X*, 0 if it has none
RECURSIVE BackOverDigits(_, _)
BackOverDigits(s, n) == IF n > 0 /\ Ch(s, n) \in Digits THEN BackOverDigits(s, n - 1) ELSE n
Star(s) == LET n == BackOverDigits(s, Len(s)) IN IF n > 0 /\ Ch(s, n) = "*" THEN n ELSE 0
Base(s) == SubSeq(s, 1, Star(s) - 1)
Idx(s) == IF Star(s) = Len(s) THEN -1 ELSE NumVal(SubSeq(s, Star(s) + 1, Len(s)))
(* Merge the components among the children of a node: a component X*n       *)
(* extends the oldest node X whose last component was X*(n-1); a component  *)
(* X* the node X introduced by the first such component.                    *)
RECURSIVE Place(_, _, _)
Place(ks, n, acc) == \* acc: sequence of [node, last] (last = -2: not a component)
  IF n > Len(ks) THEN [m \in DOMAIN acc |-> acc[m].t]
  ELSE LET c == ks[n] IN
   IF IsTerm(c) \/ Star(c.l) = 0 THEN Place(ks, n + 1, Append(acc, [t |-> c, last |-> -2]))
   ELSE LET b == Base(c.l) ix == Idx(c.l)
            want == IF ix = -1 THEN -1 ELSE ix - 1
            cand == {m \in DOMAIN acc : acc[m].last # -2 /\ acc[m].t.l = b /\ acc[m].last = want}
        IN IF cand = {} \/ (ix = 0)
           THEN Place(ks, n + 1, Append(acc, [t |-> Node(b, c.k), last |-> ix]))
           ELSE Place(ks, n + 1, TLCEval([acc EXCEPT
                   ![Min(cand)].t.k = @ \o c.k, ![Min(cand)].last = ix]))
RECURSIVE Merge(_)
Merge(t) == IF IsTerm(t) THEN t ELSE
  LET ks == Place(t.k, 1, <<>>) IN Node(t.l, [n \in DOMAIN ks |-> Merge(ks[n])])

\* the labels identify the components: discontinuous siblings have
\* distinct labels, also after splitting their parent
Identified(t) == \A x \in NodeSet(t) : \A m, n \in DOMAIN x.k :
   (m < n /\ ~IsTerm(x.k[m]) /\ ~IsTerm(x.k[n])
     /\ FanOut(Yield(x.k[m])) > 1 /\ FanOut(Yield(x.k[n])) > 1) => x.k[m].l # x.k[n].l

RECURSIVE HeadPos(_)
HeadPos(t) == IF IsTerm(t) THEN t.i ELSE HeadPos(t.k[IF Hd(t) < 0 THEN 1 ELSE Hd(t) + 1])
\* only the component with the lexical head survives, the material of the
\* others goes to the parent
RECURSIVE Raised(_)
Raised(t) == IF IsTerm(t) THEN <<t>> ELSE
  LET kids == Cat([n \in DOMAIN t.k |-> Raised(t.k[n])])
      rs == RunSets(Yield(t)) h == HeadPos(t)
  IN IF Len(rs) <= 1 THEN <<Node(t.l, ByFirst(kids))>>
     ELSE Cat([n \in DOMAIN rs |-> IF h \in rs[n] THEN <<Node(t.l, In(kids, rs[n]))>>
                                   ELSE In(kids, rs[n])])
Raise(t) == Node(t.l, ByFirst(Cat([n \in DOMAIN t.k |-> Raised(t.k[n])])))

\* fan-out markers
RECURSIVE Mark(_)
Mark(t) == IF IsTerm(t) THEN t ELSE
  LET f == FanOut(Yield(t)) IN
  Node(IF f > 1 THEN t.l \o "_" \o ToString(f) ELSE t.l, [n \in DOMAIN t.k |-> Mark(t.k[n])])
\* yield function of a node over its children a, b: segments, each the
\* sequence of runs it consists of ("0" from the first, "1" from the second)
RECURSIVE YF(_, _, _, _)
YF(a, b, n, cur) == \* from position n on; cur is the last symbol
  IF \A x \in a \cup b : x < n THEN ""
  ELSE LET s == IF n \in a THEN "0" ELSE IF n \in b THEN "1" ELSE ","
       IN (IF s # cur THEN s ELSE "") \o YF(a, b, n + 1, s)
YieldFunction(a, b) == ";" \o YF(a, b, Min(a \cup b), ",")
=============================================================================
