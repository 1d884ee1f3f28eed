-------------------------------- MODULE Eval --------------------------------
(* Evaluation of candidate parse trees against gold trees.                  *)
(* A constituent is [l |-> label, i |-> -1, k |-> kids, f |-> functions,     *)
(* h |-> is a head];                                                         *)
(* parameters p: LABELED, DISC, DRP, CUT (numbers), DL, DLL, DW (sequences  *)
(* of strings), EQL, EQW (sequences of pairs).                              *)
EXTENDS EditDist

-----------------------------------------------------------------------------
(* equivalence classes of labels and words                                  *)
RECURSIVE Close(_, _)
Close(S, prs) == LET N == S \cup UNION {{x[1], x[2]} : x \in {y \in prs : y[1] \in S \/ y[2] \in S}}
                 IN IF N = S THEN S ELSE Close(N, prs)
EqFun(prs) == LET P == ToSet(prs) IN
   TLCEval([x \in UNION {{y[1], y[2]} : y \in P} |-> Close({x}, P)])
Cls(x, eq) == IF x \in DOMAIN eq THEN eq[x] ELSE {x}

\* gold position of every candidate token, first match first; <<>> at the end
\* if tokens are left (the result is then shorter than the candidate)
RECURSIVE AlignFrom(_, _, _, _)
AlignFrom(cs, gs, n, m) == IF n > Len(cs) \/ m > Len(gs) THEN <<>>
   ELSE IF cs[n] = gs[m] THEN <<m - 1>> \o AlignFrom(cs, gs, n + 1, m + 1)
   ELSE AlignFrom(cs, gs, n, m + 1)
Align(cs, gs) == AlignFrom(cs, gs, 1, 1)

TagAt(t, p) == (CHOOSE x \in NodeSet(t) : IsPre(x) /\ x.k[1].i = p).l
Tags(t) == TLCEval([n \in 1..Cardinality(Yield(t)) |-> TagAt(t, n - 1)])
RootPre(t) == {t.k[n].k[1].i : n \in {m \in DOMAIN t.k : IsPre(t.k[m])}}

\* h: marked as head among its siblings
ENode(lab, f, h, kids) == TLCEval([l |-> lab, i |-> -1, k |-> kids, f |-> f, h |-> h])
ETerm(n) == [l |-> "", i |-> n, k |-> <<>>, f |-> <<>>, h |-> FALSE]
\* remaining nodes of t when the tokens in del and the labels in DL are
\* removed; g: the new positions
RECURSIVE Kept(_, _, _, _)
Kept(t, DL, del, g) ==
  IF IsPre(t) THEN (IF t.k[1].i \in del THEN <<>> ELSE <<ENode(t.l, t.f, t.h, <<ETerm(g[t.k[1].i])>>)>>)
  ELSE LET kids == Cat([n \in DOMAIN t.k |-> Kept(t.k[n], DL, del, g)]) IN
       IF kids = <<>> THEN <<>> ELSE IF t.l \in DL THEN kids ELSE <<ENode(t.l, t.f, t.h, kids)>>
NewPos(n, del) == TLCEval([x \in 0..(n - 1) |-> Cardinality({y \in 0..(x - 1) : y \notin del})])
\* the root is never removed
Transformed(t, DL, del) == LET g == NewPos(Cardinality(Yield(t)), del) IN
   ENode(t.l, t.f, t.h, Cat([n \in DOMAIN t.k |-> Kept(t.k[n], DL, del, g)]))
Retained(s, del) == LET idx == SetToSortSeq({n \in DOMAIN s : n - 1 \notin del}, LAMBDA a, b : a < b)
                    IN TLCEval([n \in DOMAIN idx |-> s[idx[n]]])
\* constituents that count, as <<class of label, yield>>
Constituents(t, p) == LET DL == ToSet(p.DL) IN
   SelectSeq(Nodes(t), LAMBDA x : x.k # <<>> /\ ~IsPre(x) /\ x.l \notin DL
             /\ (p.DISC = 0 \/ FanOut(Yield(x)) > 1))
Brackets(t, p, eq) == LET c == Constituents(t, p) IN
   TLCEval([n \in DOMAIN c |-> <<IF p.LABELED # 0 THEN Cls(c[n].l, eq) ELSE {""}, Yield(c[n])>>])

Times(s, x) == Cardinality({n \in DOMAIN s : s[n] = x})
BagSum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
\* size of the intersection of two bags
Common(s, u) == BagSum(ToSet(s) \cap ToSet(u), LAMBDA x : Min2(Times(s, x), Times(u, x)))
SameBag(s, u) == Len(s) = Len(u) /\ Common(s, u) = Len(s)

\* everything about one pair of trees
Pair(x, p) ==
  LET eql == EqFun(p.EQL) eqw == EqFun(p.EQW) DL == ToSet(p.DL)
      gs == TLCEval([n \in DOMAIN x.gs |-> Cls(x.gs[n], eqw)])
      cs == TLCEval([n \in DOMAIN x.cs |-> Cls(x.cs[n], eqw)])
      al == TLCEval(Align(cs, gs))
      gt == Tags(x.gt) rp == RootPre(x.gt)
      gone(n) == gt[n + 1] \in DL \/ (p.DRP # 0 /\ n \in rp)
      gdel == TLCEval({n \in 0..(Len(gs) - 1) : gone(n) \/ x.gs[n + 1] \in ToSet(p.DW)})
      aligned == Len(al) = Len(cs)
      cdel == IF ~aligned THEN {} ELSE
              TLCEval({n \in 0..(Len(cs) - 1) : gone(al[n + 1]) \/ x.cs[n + 1] \in ToSet(p.DW)})
      match == aligned /\ Retained(gs, gdel) = Retained(cs, cdel)
  IN IF ~match THEN [ok |-> FALSE] ELSE
  LET g == Transformed(x.gt, DL, gdel) c == Transformed(x.ct, DL, cdel)
      gb == Brackets(g, p, eql) cb == Brackets(c, p, eql)
      gp == Retained(gt, gdel) cp == Retained(Tags(x.ct), cdel)
      \* function tags of constituents and tokens found in both trees
      fun(t, other, opos) == LET ns == Nodes(t)
            ok == SelectSeq([n \in DOMAIN ns |-> n], LAMBDA n :
                 IF ns[n].k # <<>> /\ IsPre(ns[n]) THEN opos[ns[n].k[1].i + 1] = ns[n].l
                 ELSE \E m \in DOMAIN other : other[m] = <<Cls(ns[n].l, eql), Yield(ns[n])>>)
            IN Cat([m \in DOMAIN ok |-> LET y == ns[ok[m]] IN
                  [h \in DOMAIN y.f |-> <<Cls(y.l, eql), Yield(y), y.f[h]>>]])
  IN [ok |-> TRUE, g |-> g, c |-> c, gb |-> gb, cb |-> cb, gp |-> gp, cp |-> cp,
      gf |-> TLCEval(fun(g, cb, cp)), cf |-> TLCEval(fun(c, gb, gp)),
      len |-> Cardinality({n \in DOMAIN gt : gt[n] \notin ToSet(p.DLL)}),
      words |-> Retained(gs, gdel)]

-----------------------------------------------------------------------------
(* scores are fractions m / d                                               *)
Agree(s, u) == Cardinality({n \in DOMAIN s : s[n] = u[n]})
\* rounding to hundredths of percents, ties to even
Hundredths(m, d) == LET q == (10000 * m) \div d r == (10000 * m) % d IN
   IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
Pad(s, w) == IF Len(s) >= w THEN s ELSE SubSeq("          ", 1, w - Len(s)) \o s
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Str(k) == Pad(ToString(k \div 100) \o "." \o Two(k % 100), 6)
NaN == "   nan"
ZeroDiv == " 0DIV!"
Pct(m, d) == IF d = 0 THEN NaN ELSE Str(Hundredths(m, d))
Frac(m, d) == IF d = 0 THEN ZeroDiv ELSE Str(Hundredths(m, d))
FScore(m, g, c) == IF m = 0 THEN NaN ELSE Str(Hundredths(2 * m, g + c))

\* totals over a sequence of pairs
Total(prs, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, prs)
Counts(prs, p) ==
  LET nonempty(x) == p.DISC = 0 \/ x.gb # <<>> \/ x.cb # <<>> IN
  TLCEval([
   m |-> Total(prs, LAMBDA x : Common(x.gb, x.cb)),
   g |-> Total(prs, LAMBDA x : Len(x.gb)), c |-> Total(prs, LAMBDA x : Len(x.cb)),
   gd |-> Total(prs, LAMBDA x : Len(SelectSeq(x.gb, LAMBDA y : FanOut(y[2]) > 1))),
   cd |-> Total(prs, LAMBDA x : Len(SelectSeq(x.cb, LAMBDA y : FanOut(y[2]) > 1))),
   n |-> Total(prs, LAMBDA x : IF nonempty(x) THEN 1 ELSE 0),
   ex |-> Total(prs, LAMBDA x : IF nonempty(x) /\ SameBag(x.gb, x.cb) THEN 1 ELSE 0),
   pm |-> Total(prs, LAMBDA x : Agree(x.gp, x.cp)), pn |-> Total(prs, LAMBDA x : Len(x.gp)),
   fm |-> Total(prs, LAMBDA x : Common(x.gf, x.cf)),
   fg |-> Total(prs, LAMBDA x : Len(x.gf)), fc |-> Total(prs, LAMBDA x : Len(x.cf)),
   max |-> IF prs = <<>> THEN 0 ELSE Max({prs[n].len : n \in DOMAIN prs})])
Recall(k) == Pct(k.m, k.g)
Precision(k) == Pct(k.m, k.c)
F(k) == FScore(k.m, k.g, k.c)
Exact(k) == Frac(k.ex, k.n)
PosAcc(k) == Frac(k.pm, k.pn)
Fun(k) == FScore(k.fm, k.fg, k.fc)

-----------------------------------------------------------------------------
(* leaf ancestor: lineage of a token, top-down, with boundary symbols for   *)
(* the edges of constituents ( ) and of their components [ ], each at most  *)
(* once                                                                     *)
RECURSIVE Ancestors(_, _)
Ancestors(t, p) == IF t.k = <<>> \/ IsPre(t) THEN <<>>
   ELSE <<t>> \o Ancestors(t.k[CHOOSE n \in DOMAIN t.k : p \in Yield(t.k[n])], p)
Opt(s, path) == IF s = "" \/ s \in ToSet(path) THEN path ELSE Append(path, s)
Lineage(t, p, DL) ==
  LET as == SelectSeq(Ancestors(t, p), LAMBDA x : x.l \notin DL)
      step(path, x) == LET Y == Yield(x)
          fin == IF p + 1 \in Y THEN "" ELSE IF p = Max(Y) THEN ")" ELSE "]"
          beg == IF p - 1 \in Y THEN "" ELSE IF p = Min(Y) THEN "(" ELSE "["
        IN Opt(beg, Append(Opt(fin, path), x.l))
  IN TLCEval(FoldLeft(step, <<>>, as))
\* Levenshtein distance, row by row
Lev(s, u) ==
  LET row0 == [c \in 1..(Len(u) + 1) |-> c - 1]
      RECURSIVE cells(_, _, _, _)
      cells(r, prev, c, acc) == IF c > Len(u) THEN acc ELSE
         cells(r, prev, c + 1, Append(acc, Min2(Min2(acc[c] + 1, prev[c + 1] + 1),
                                     prev[c] + (IF s[r] = u[c] THEN 0 ELSE 1))))
      RECURSIVE rows(_, _)
      rows(r, prev) == IF r > Len(s) THEN prev ELSE rows(r + 1, TLCEval(cells(r, prev, 1, <<r>>)))
  IN rows(1, row0)[Len(u) + 1]
\* the score of a token is 1 - Lev / (sum of lengths); scaled by 10^7
Scale == 10000000
Max2(a, b) == IF a < b THEN b ELSE a
PathScore(s, u) == Scale - ((Scale \div Max2(1, Len(s) + Len(u))) * Lev(s, u))
LeafAncestor(g, c, DL, n) ==
   LET tot == FoldLeft(LAMBDA acc, q : acc + PathScore(Lineage(g, q - 1, DL), Lineage(c, q - 1, DL)),
                       0, [q \in 1..n |-> q])
   IN tot \div n
-----------------------------------------------------------------------------
(* tree edit distance, normalized by the number of nodes of both trees (the *)
(* root is not counted when its label is ignored)                           *)
TedNum(x) == TreeDist(Prep(x.g), Prep(x.c))
TedDen(x, p) == Size(<<Prep(x.g)>>) + Size(<<Prep(x.c)>>) - (IF x.g.l \in ToSet(p.DL) THEN 2 ELSE 0)
(* dependencies <<dependent, head>> from 1, 0 is the root                   *)
HeadChild(t) == Min({n \in DOMAIN t.k : t.k[n].h})
RECURSIVE LexH(_)
LexH(t) == IF IsPre(t) THEN t.k[1].i + 1 ELSE LexH(t.k[HeadChild(t)])
RECURSIVE DepArcs(_)
DepArcs(t) == IF IsPre(t) THEN {} ELSE UNION {DepArcs(t.k[n]) : n \in DOMAIN t.k}
   \cup {<<LexH(t.k[n]), LexH(t)>> : n \in DOMAIN t.k \ {HeadChild(t)}}
UDeps(root) == UNION {DepArcs(root.k[n]) : n \in DOMAIN root.k} \cup {<<LexH(root.k[n]), 0>> : n \in DOMAIN root.k}
Has(x) == x.gp # <<>>
=============================================================================
