--------------------------- MODULE DisambRedTrace ---------------------------
(* Parse trees chosen with grammars whose derivations become trees by        *)
(* removing addresses from labels (DOP reductions); a node without address   *)
(* starts a new fragment.                                                    *)
EXTENDS TraceBase, Chart, Trees, Objectives
EnvOf(q) == TLCEval(
  [g |-> [start |-> q.start, bin |-> q.g.bin, un |-> q.g.un, lex |-> q.g.lex],
   sent |-> q.sent, noexp |-> {}, use |-> FALSE, map |-> <<>>, split |-> 0, white |-> {}])
Marked(q, l) == q.marked[l]
Strip(q, t) == MapLabels(LAMBDA l : q.base[l], t)
\* keep only which nodes have an address
Mark(q, t) == MapLabels(LAMBDA l : IF Marked(q, l) THEN q.base[l] \o "@1" ELSE l, t)
\* the fragments of a derivation
RECURSIVE Below(_, _), NumFrag(_, _)
\* the part of the fragment that starts at x, whose substitution sites stay as they are
Below(q, x) == [n \in DOMAIN x.k |-> IF IsTerm(x.k[n]) THEN x.k[n]
   ELSE IF Marked(q, x.k[n].l) THEN Node(q.base[x.k[n].l], Below(q, x.k[n]))
   ELSE Node(x.k[n].l, [m \in 1..Cardinality(Yield(x.k[n])) |-> [l |-> "open", i |-> SetToSortSeq(Yield(x.k[n]), LAMBDA a, b : a < b)[m], k |-> <<>>]])]
NumFrag(q, t) == IF IsTerm(t) THEN 0 ELSE (IF Marked(q, t.l) THEN 0 ELSE 1) + FoldLeft(LAMBDA a, b : a + NumFrag(q, b), 0, t.k)
\* positions in a fragment: components of substitution sites become one position, gaps have length 1
RECURSIVE UnitsB(_), Repl(_, _)
UnitsB(x) == IF x.k[1].i >= 0 THEN <<x>> ELSE Cat([n \in DOMAIN x.k |-> UnitsB(x.k[n])])
OwnerIn(us, p) == CHOOSE n \in DOMAIN us : p \in Yield(us[n])
IsOpenU(u) == u.k[1].l = "open"
Placed(us) == LET all == UNION {Yield(us[n]) : n \in DOMAIN us}
                  keep == {p \in all : (p - 1) \notin all \/ OwnerIn(us, p - 1) # OwnerIn(us, p)}
                  ps == TLCEval(SetToSortSeq(keep, LAMBDA a, b : a < b))
                  gap(p) == (p - 1) \notin all /\ p # ps[1]
              IN TLCEval([n \in DOMAIN ps |-> [old |-> ps[n], new |-> n - 1 + Cardinality({m \in 1..n : gap(ps[m])})]])
Repl(pl, x) == IF x.k[1].i >= 0
   THEN Node(x.l, LET ns == SelectSeq(pl, LAMBDA r : r.old \in Yield(x)) IN [n \in DOMAIN ns |-> Term(ns[n].new)])
   ELSE Node(x.l, [n \in DOMAIN x.k |-> Repl(pl, x.k[n])])
FragRec(q, x) == LET t == Node(x.l, Below(q, x)) us == UnitsB(t) pl == Placed(us)
                     len == pl[Len(pl)].new + 1
                     wd(m) == LET c == {n \in DOMAIN pl : pl[n].new = m} IN IF c = {} THEN "None"
                        ELSE LET r == pl[CHOOSE n \in c : TRUE] u == us[OwnerIn(us, r.old)] IN IF IsOpenU(u) THEN "None" ELSE q.sent[r.old + 1].w
                 IN [t |-> Repl(pl, t), s |-> [m \in 1..len |-> wd(m - 1)]]
FragsOfDeriv(q, t) == LET ns == Nodes(t) roots == SelectSeq(ns, LAMBDA x : ~Marked(q, x.l)) IN [n \in DOMAIN roots |-> FragRec(q, roots[n])]
-----------------------------------------------------------------------------
\* max constituents parse: labelled spans of trees without unary chains
RECURSIVE Collapse(_), Joined(_)
Joined(t) == IF IsPre(t) THEN t.l ELSE IF Len(t.k) = 1 THEN t.l \o "+" \o Joined(t.k[1]) ELSE t.l
Bottom(t) == IF IsPre(t) \/ Len(t.k) # 1 THEN t ELSE t.k[1]
RECURSIVE LastOf(_)
LastOf(t) == IF IsPre(t) \/ Len(t.k) # 1 THEN t ELSE LastOf(t.k[1])
Collapse(t) == IF IsTerm(t) THEN t ELSE LET b == LastOf(t) IN Node(Joined(t), [n \in DOMAIN b.k |-> Collapse(b.k[n])])
RECURSIVE BestSplit(_, _, _)
\* all in multiples of 2^-M / the denominator of lambda
BestSplit(C, todo, best) == IF todo = {} THEN best ELSE
   LET size == MinOf({Cardinality(S) : S \in todo})
       now == {S \in todo : Cardinality(S) = size}
       parts(S) == {A \in DOMAIN best : A \subseteq S /\ MinOf(S) \in A /\ (S \ A) \in DOMAIN best}
       top(S) == LET ps == parts(S) own == IF C[S] > 0 THEN C[S] ELSE 0
                 IN own + (IF ps = {} THEN 0 ELSE Max({best[A] + best[S \ A] : A \in ps}))
   IN BestSplit(C, todo \ now, TLCEval([S \in DOMAIN best \cup now |-> IF S \in now THEN top(S) ELSE best[S]]))
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
BadMcp(q, o, D) ==
  LET M == Max({D[n].w : n \in DOMAIN D})
      ts == TLCEval([n \in DOMAIN D |-> Collapse(Strip(q, D[n].t))])
      ls == TLCEval([n \in DOMAIN D |-> LET ns == Nodes(ts[n]) IN {<<ns[m].l, Yield(ns[m])>> : m \in DOMAIN ns}])
      all == UNION {ls[n] : n \in DOMAIN ls}
      sp == FoldLeft(LAMBDA a, d : a + Pow2(M - d.w), 0, D)
      counts(l) == q.mcplabels = <<>> \/ l \in ToSet(q.mcplabels)
      P == TLCEval([x \in all |-> IF counts(x[1]) THEN FoldLeft(LAMBDA a, n : a + (IF x \in ls[n] THEN Pow2(M - D[n].w) ELSE 0), 0, [n \in DOMAIN D |-> n]) ELSE 0])
      spans == {x[2] : x \in all}
      maxp == TLCEval([S \in spans |-> Max({P[x] : x \in {x \in all : x[2] = S}})])
      value(p) == q.lam[2] * p - q.lam[1] * (sp - p)
      C == TLCEval([S \in spans |-> value(maxp[S])])
      full == 0..(Len(q.sent) - 1)
      best == BestSplit(C, spans, <<>>)
      t == TLCEval(Collapse(o.mcp[1].t))
      ns == Nodes(t)
      got == {<<ns[n].l, Yield(ns[n])>> : n \in DOMAIN ns}
      score == FoldLeft(LAMBDA a, n : LET x == <<ns[n].l, Yield(ns[n])>> IN a + (IF value(P[x]) > 0 THEN value(P[x]) ELSE 0), 0, [n \in DOMAIN ns |-> n])
  IN IF M > 20 THEN {}
  ELSE IF Len(o.mcp) # 1 \/ ~Proper(o.mcp[1].t) THEN {"mcp: no tree"}
  ELSE IF ~(IsInjective(Leaves(t)) /\ Yield(t) = full) THEN {"mcp: tree over the sentence"}
  ELSE IF ~(got \subseteq all) THEN {"mcp: unknown constituent"}
  ELSE Clause("mcp: best label", \A x \in got : P[x] = maxp[x[2]])
       \cup Clause("mcp: useless constituents", \A x \in got : value(P[x]) >= 0 \/ Cardinality(x[2]) = 1 \/ x[2] = full)
       \cup Clause("mcp: maximal", score = best[full])
-----------------------------------------------------------------------------
Bits(p) == ToSet(p)
Strips(res) == {res[n].t : n \in DOMAIN res}
FragsIn(r) == [n \in DOMAIN r.frags |-> [t |-> r.frags[n].t, s |-> r.frags[n].s]]
BadRed(q, o) ==
  LET env == EnvOf(q) W == WeightOf(env)
      D == [n \in DOMAIN o.derivs |-> [t |-> o.derivs[n].t, w |-> o.derivs[n].w, n |-> NumFrag(q, o.derivs[n].t)]]
      D2 == [n \in DOMAIN o.derivs2 |-> LET d == DerivOf(env, W, o.derivs2[n].t) IN [t |-> o.derivs2[n].t, w |-> d.w, n |-> NumFrag(q, o.derivs2[n].t)]]
      tr == TLCEval([n \in DOMAIN D |-> Strip(q, D[n].t)])
      U == {tr[n] : n \in DOMAIN tr}
      of(t) == SelectSeq([n \in DOMAIN D |-> [t |-> tr[n], w |-> D[n].w, n |-> D[n].n, d |-> D[n].t]], LAMBDA d : d.t = t)
      E == TLCEval([t \in U |-> of(t)])
      P == TLCEval([t \in U |-> Prob(Weights(E[t]))])
      pats == {Mark(q, D[n].t) : n \in DOMAIN D}
      bypat == TLCEval([m \in pats |-> SelectSeq(D, LAMBDA d : Mark(q, d.t) = m)])
      S == ShortOnes(D2)
      pats2 == {Mark(q, S[n].t) : n \in DOMAIN S}
      bypat2 == TLCEval([m \in pats2 |-> SelectSeq(S, LAMBDA d : Mark(q, d.t) = m)])
      exact == Max({D[n].w : n \in DOMAIN D}) - Min({D[n].w : n \in DOMAIN D}) <= 36
      fr(d) == FragsOfDeriv(q, d)
      bestfr(ds) == {fr(ds[n].d) : n \in {m \in DOMAIN ds : ds[m].w = BestW(ds)}}
      Base(t) == \A x \in NodeSet(t) : x.l \in {q.base[l] : l \in DOMAIN q.base}
  IN IF ~o.ok THEN {}
  ELSE IF \E res \in {o.mpp, o.mpd, o.short, o.sldops, o.sldop} : \E n \in DOMAIN res : ~Proper(res[n].t) \/ ~Covers(res[n].t, Len(q.sent)) \/ ~Base(res[n].t) THEN {"trees of the sentence without addresses"}
  ELSE
  Clause("valid derivations", \A n \in DOMAIN o.derivs : DerivOf(env, W, D[n].t).ok /\ DerivOf(env, W, D[n].t).w = D[n].w)
  \cup Clause("mpp", exact => Len(o.mpp) = Cardinality(U) /\ {<<o.mpp[n].t, Bits(o.mpp[n].p)>> : n \in DOMAIN o.mpp} = {<<t, P[t]>> : t \in U})
  \cup Clause("mpp fragments", Strips(o.mpp) \subseteq U => \A n \in DOMAIN o.mpp : FragsIn(o.mpp[n]) \in bestfr(E[o.mpp[n].t]))
  \cup Clause("mpd", /\ Len(o.mpd) = Cardinality(pats)
                     /\ {<<o.mpd[n].t, Bits(o.mpd[n].p), FragsIn(o.mpd[n])>> : n \in DOMAIN o.mpd}
                        = {<<Strip(q, bypat[m][1].t), {BestW(bypat[m])}, fr(bypat[m][1].t)>> : m \in pats})
  \cup Clause("shortest", (o.nder2 < q.k /\ Max({D2[n].w : n \in DOMAIN D2}) - Min({D2[n].w : n \in DOMAIN D2}) <= 36) => Len(o.short) = Cardinality(pats2)
                     /\ {<<o.short[n].t, o.short[n].n, Bits(o.short[n].p), FragsIn(o.short[n])>> : n \in DOMAIN o.short}
                        = {<<Strip(q, bypat2[m][1].t), Shortest(D2), Prob(Weights(bypat2[m])), fr(bypat2[m][1].t)>> : m \in pats2})
  \cup Clause("derivation lengths", \A n \in DOMAIN o.derivs2 : o.derivs2[n].w = D2[n].n)
  \cup Clause("simplicity-likelihood approximated", exact => BestN(Strips(o.sldops), U, P, q.n)
                     /\ \A n \in DOMAIN o.sldops : LET t == o.sldops[n].t IN Bits(o.sldops[n].p) = P[t] /\ o.sldops[n].n = Shortest(E[t])
                           /\ FragsIn(o.sldops[n]) \in {fr(x.d) : x \in ToSet(ShortOnes(E[t]))})
  \cup Clause("simplicity-likelihood", exact /\ Len(D) < q.k => BestN(Strips(o.sldop), U, P, q.n)
                     /\ \A n \in DOMAIN o.sldop : LET t == o.sldop[n].t IN Bits(o.sldop[n].p) = P[t] /\ o.sldop[n].n = Shortest(E[t])
                           /\ FragsIn(o.sldop[n]) \in {fr(x.d) : x \in ToSet(ShortOnes(E[t]))})
  \cup Clause("probability of a given tree", exact /\ Len(D) < q.k => \A n \in DOMAIN o.exactp : Bits(o.exactp[n]) = P[o.mpp[n].t])
  \cup BadMcp(q, o, D)
Bad(r) == IF r.err # "" THEN {r.err} ELSE BadRed(r.inp, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
