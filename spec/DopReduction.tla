---------------------------- MODULE DopReduction ----------------------------
(* The reduction of the model of all fragments of a corpus to a grammar     *)
(* whose size is linear in that of the corpus.  Nonterminals of the         *)
(* reduction are pairs <<label, address>>, the address "" standing for the  *)
(* root or a frontier of a fragment; a rule is a record                     *)
(*   [p |-> production with plain labels, a |-> addresses, rfe, ewe,        *)
(*    shortest, bon |-> weights <<numerator, denominator>>]                 *)
(* The corpus is a sequence of [t, s]: tree, sequence of words.             *)
EXTENDS Fragments
RECURSIVE Pow(_, _)
Pow(x, n) == IF n <= 0 THEN 1 ELSE x * Pow(x, n - 1)
AllNodes(C) == Cat([n \in DOMAIN C |-> LET ns == Nodes(C[n].t) IN [m \in DOMAIN ns |-> [t |-> ns[m], s |-> C[n].s]]])
FragBag(C) == LET ns == TLCEval(AllNodes(C)) fs == TLCEval([n \in DOMAIN ns |-> FragsOf(ns[n].t, ns[n].s)]) IN
  TLCEval([f \in UNION {fs[n] : n \in DOMAIN fs} |-> Cardinality({n \in DOMAIN fs : f \in fs[n]})])
\* number of occurrences of fragments with root x; of nodes with label x
TotalOf(B, x) == FoldSet(LAMBDA f, acc : acc + B[f], 0, {f \in DOMAIN B : RootLab(f) = x})
NodesOf(C, x) == LET ns == AllNodes(C) IN Cardinality({n \in DOMAIN ns : ns[n].t.l = x})

-----------------------------------------------------------------------------
(* What a set of rules assigns to a fragment.                               *)
\* rules that expand nonterminal <<label of f, a>> to the children of f
Matching(R, a, f) == {n \in DOMAIN R : R[n].p = f.p /\ R[n].a[1] = a /\
   \A c \in DOMAIN f.k : (R[n].a[c + 1] = "") <=> IsOpen(f.k[c])}
MassR(R, x, a) == SumSeq([n \in DOMAIN R |-> IF R[n].p.r[1] = x /\ R[n].a[1] = a THEN R[n].rfe[1] ELSE 0])
RECURSIVE SumFrac(_, _)
SumFrac(f, S) == IF S = {} THEN <<0, 1>> ELSE LET x == CHOOSE y \in S : TRUE IN Plus(f[x], SumFrac(f, S \ {x}))
RECURSIVE ProdFrac(_)
ProdFrac(s) == IF s = <<>> THEN <<1, 1>> ELSE Times(s[1], ProdFrac(Tail(s)))
\* total weight of the derivations of f from <<label, a>>; w: weights of rules
RECURSIVE FragWeight(_, _, _, _)
FragWeight(R, w, a, f) == LET S == Matching(R, a, f) IN
  SumFrac(TLCEval([n \in S |-> Times(w[n], ProdFrac(TLCEval([c \in DOMAIN f.k |->
      IF IsOpen(f.k[c]) THEN <<1, 1>> ELSE FragWeight(R, w, R[n].a[c + 1], f.k[c])])))]), S)
\* the set of weights of its derivations
RECURSIVE DerWeights(_, _, _, _)
DerWeights(R, w, a, f) == UNION {
  {Times(w[n], ProdFrac(c)) : c \in Tuples(TLCEval([m \in DOMAIN f.k |->
      IF IsOpen(f.k[m]) THEN {<<1, 1>>} ELSE DerWeights(R, w, R[n].a[m + 1], f.k[m])]))} : n \in Matching(R, a, f)}
-----------------------------------------------------------------------------
WithExtra(B, X) == LET E == {[p |-> X[n].p, k |-> <<>>] : n \in DOMAIN X} IN
  TLCEval([f \in (DOMAIN B) \cup E |-> (IF f \in DOMAIN B THEN B[f] ELSE 0) + SumSeq([n \in DOMAIN X |-> IF X[n].p = f.p THEN X[n].w ELSE 0])])
(* The obligations of a reduction.                                          *)
(* X: additional lexical rules [p, w]                                       *)
BadReduction(C, R, X) ==
  LET B == TLCEval(WithExtra(FragBag(C), X))
      labs == {RootLab(f) : f \in DOMAIN B}
      tot == TLCEval([x \in labs |-> TotalOf(B, x)])
      ntf == TLCEval([x \in labs |-> Max({1, NodesOf(C, x)})])
      nts == TLCEval({<<R[n].p.r[1], R[n].a[1]>> : n \in DOMAIN R})
      mass == TLCEval([x \in nts |-> MassR(R, x[1], x[2])])
      rfe == TLCEval([n \in DOMAIN R |-> Frac(R[n].rfe[1], mass[<<R[n].p.r[1], R[n].a[1]>>])])
      ewe == TLCEval([n \in DOMAIN R |-> R[n].ewe])
      short == TLCEval([n \in DOMAIN R |-> R[n].shortest])
      bon == TLCEval([n \in DOMAIN R |-> R[n].bon])
      plain == {f.p : f \in DOMAIN B}
      addr(n) == {<<R[n].p.r[m], R[n].a[m]>> : m \in {y \in DOMAIN R[n].a : R[n].a[y] # ""}}
      used == UNION {addr(n) : n \in DOMAIN R}
      name(c, y) == c \o <<y>>
  IN (IF \E n \in DOMAIN R : R[n].p \notin plain \/ Len(R[n].a) # (IF IsLex(R[n].p) THEN 1 ELSE Len(R[n].p.r)) THEN {"productions of the corpus"} ELSE
      (IF \A n \in DOMAIN R : R[n].rfe[2] = 1 /\ R[n].rfe[1] > 0 THEN
        (IF \A f \in DOMAIN B : FragWeight(R, rfe, "", f) = Frac(B[f], tot[RootLab(f)]) THEN {} ELSE {"relative frequency of fragments"})
        \cup (IF \A x \in labs : <<x, "">> \in nts /\ mass[<<x, "">>] = tot[x] THEN {} ELSE {"number of fragments with a given root"})
       ELSE {"frequencies are not positive integers"})
      \cup (IF \A f \in DOMAIN B : FragWeight(R, ewe, "", f) = Frac(B[f], tot[RootLab(f)] * ntf[RootLab(f)]) THEN {} ELSE {"equal weights estimate"})
      \cup (IF \A f \in DOMAIN B : DerWeights(R, short, "", f) = {<<1, 2>>} THEN {} ELSE {"shortest derivation weights"})
      \cup (IF \A f \in DOMAIN B : DerWeights(R, bon, "", f) = {Frac(1, Pow(4, FragSize(f)) * ntf[RootLab(f)])} THEN {} ELSE {"bonnema weights"})
      \cup (IF used \subseteq nts THEN {} ELSE {"address without rules"})
      \cup (IF \A x, y \in nts : x[2] # "" /\ x[2] = y[2] => x = y THEN {} ELSE {"address used for different labels"})
      \cup (IF \A n, m \in DOMAIN R : n # m => <<R[n].p, R[n].a>> # <<R[m].p, R[m].a>> THEN {} ELSE {"repeated rule"}))
-----------------------------------------------------------------------------
(* A construction of the reduction: the address of a node is its number, or *)
(* (packed) the number of the first node with the same subtree.             *)
RECURSIVE FullFrag(_, _)
FullFrag(t, s) == [p |-> ProdAt(t, s), k |-> IF t.k[1].i >= 0 THEN <<>> ELSE TLCEval([n \in DOMAIN t.k |-> FullFrag(t.k[n], s)])]
Construct(C, packed, isroot(_)) ==
  LET ns == TLCEval(AllNodes(C))
      full == TLCEval([n \in DOMAIN ns |-> FullFrag(ns[n].t, ns[n].s)])
      \* number of the m-th child of node n (preorder)
      RECURSIVE Off(_, _)
      Off(t, m) == IF m = 1 THEN 1 ELSE Off(t, m - 1) + Len(Nodes(t.k[m - 1]))
      kid(n, m) == n + Off(ns[n].t, m)
      ad(n) == IF isroot(ns[n].t.l) THEN "" ELSE ToString(IF packed THEN Min({m \in DOMAIN ns : full[m] = full[n] /\ ~isroot(ns[m].t.l)}) ELSE n)
      arity(n) == IF full[n].k = <<>> THEN 0 ELSE Len(ns[n].t.k)
      inst == TLCEval(UNION {{<<n, a>> : a \in Tuples(TLCEval([m \in 1..(arity(n) + 1) |-> IF m = 1 THEN {"", ad(n)} ELSE {"", ad(kid(n, m - 1))}]))} : n \in DOMAIN ns})
      keys == SetToSeq({<<full[x[1]].p, x[2]>> : x \in inst})
      num(k) == Cardinality({x \in inst : <<full[x[1]].p, x[2]>> = k})
      fd(lab, a) == IF a = "" THEN SumSeq([n \in DOMAIN ns |-> IF ns[n].t.l = lab THEN NumFrags(ns[n].t) ELSE 0])
                    ELSE NumFrags(ns[CHOOSE n \in DOMAIN ns : ad(n) = a].t)
      ntfd(lab) == Cardinality({n \in DOMAIN ns : ns[n].t.l = lab})
      w(k) == (IF k[2][1] = "" THEN num(k) ELSE 1) * FoldLeft(LAMBDA x, y : x * y, 1,
                TLCEval([m \in 1..(Len(k[2]) - 1) |-> IF k[2][m + 1] = "" THEN 1 ELSE fd(k[1].r[m + 1], k[2][m + 1])]))
  IN TLCEval([n \in DOMAIN keys |-> LET k == keys[n] IN TLCEval(
      [p |-> k[1], a |-> k[2], rfe |-> <<w(k), 1>>,
       ewe |-> Frac(w(k), fd(k[1].r[1], k[2][1]) * (IF k[2][1] = "" THEN ntfd(k[1].r[1]) ELSE 1)),
       shortest |-> IF k[2][1] = "" THEN <<1, 2>> ELSE <<1, 1>>,
       bon |-> IF k[2][1] = "" THEN <<1, 4 * ntfd(k[1].r[1])>> ELSE <<1, 4>>])])
=============================================================================
