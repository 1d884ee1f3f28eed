---------------------------- MODULE DisambTrace -----------------------------
(* Parse trees chosen with grammars of fragments (Double-DOP).               *)
EXTENDS TraceBase, Disamb
FragOf(q, n) == [f |-> [t |-> q.frags[n].t, s |-> q.frags[n].sent], w |-> q.frags[n].w]
TreesOf(res) == {res[n].t : n \in DOMAIN res}
ResOf(res, t) == res[CHOOSE n \in DOMAIN res : res[n].t = t]
Spans(t) == LET ns == Nodes(t) IN {<<ns[n].l, SetToSortSeq(Yield(ns[n]), LAMBDA a, b : a < b)>> : n \in DOMAIN ns}
Bits(p) == ToSet(p)
WellFormedTree(q, t) == Proper(t) /\ Covers(t, Len(q.sent)) /\ t.l = q.start
                          /\ \A x \in NodeSet(t) : x.l \in ToSet(q.labels)
BadDD(q, o) ==
  LET F == TLCEval([n \in DOMAIN q.frags |-> FragOf(q, n)])
      ill == {res \in {o.mpp, o.mpd, o.short, o.sldops, o.sldop, o.cons} : \E n \in DOMAIN res : ~WellFormedTree(q, res[n].t)}
      U == TreesOf(o.mpp)
  IN IF ~o.ok THEN Clause("parsed", q.known = <<>>)
  ELSE IF ill # {} THEN {"trees of the sentence without artificial labels"}
  ELSE
  LET V == UNION {TreesOf(res) : res \in {o.mpp, o.mpd, o.short, o.sldops, o.sldop, o.cons}}
      T == TLCEval([t \in V |-> Tilings(F, t, q.sent)])
      D == TLCEval([t \in V |-> [n \in DOMAIN T[t] |-> [w |-> TileW(F, T[t][n]), n |-> Len(T[t][n]), s |-> T[t][n]]]])
      all == o.nder < q.k
      total == FoldSet(LAMBDA t, a : a + Len(D[t]), 0, U)
      P == TLCEval([t \in V |-> Prob(Weights(D[t]))])
      L == MinOf({Shortest(D[t]) : t \in U})
      shorts == {t \in U : Shortest(D[t]) = L}
      \* the fragments reported, as numbers
      nums(r) == [m \in DOMAIN r.frags |-> LET c == {n \in DOMAIN F : F[n].f = [t |-> r.frags[m].t, s |-> r.frags[m].s] /\ F[n].w = r.frags[m].w} IN IF c = {} THEN 0 ELSE MinOf(c)]
      used(r, E) == TLCEval(nums(r)) \in {E[n].s : n \in DOMAIN E}
      best(E) == SelectSeq(E, LAMBDA d : d.w = BestW(E))
  IN IF \E t \in V : D[t] = <<>> THEN {"tree that cannot be built from fragments"}
  ELSE IF (all /\ ~(TreesOf(o.short) \subseteq U)) \/ \E res \in {o.mpd, o.sldops, o.sldop, o.cons} : ~(TreesOf(res) \subseteq U) THEN {"trees differ between objectives"}
  ELSE
  Clause("each tree once", \A res \in {o.mpp, o.mpd, o.short, o.sldops, o.sldop, o.cons} : Len(res) = Cardinality(TreesOf(res)))
  \cup Clause("known tree found", all /\ q.known # <<>> => q.known[1] \in U)
  \cup Clause("number of derivations", IF all THEN total = o.nder ELSE total >= o.nder)
  \cup Clause("mpp", o.exact => \A n \in DOMAIN o.mpp : IF all THEN Bits(o.mpp[n].p) = P[o.mpp[n].t]
           ELSE AtLeast(P[o.mpp[n].t], Bits(o.mpp[n].p)))
  \cup Clause("mpd", TreesOf(o.mpd) = U /\ \A n \in DOMAIN o.mpd : Bits(o.mpd[n].p) = {BestW(D[o.mpd[n].t])})
  \cup Clause("fragments of the best derivation", \A res \in {o.mpp, o.mpd, o.cons} : \A n \in DOMAIN res : used(res[n], best(D[res[n].t])))
  \cup Clause("shortest", all => TreesOf(o.short) = shorts
           /\ \A n \in DOMAIN o.short : o.short[n].n = L /\ Bits(o.short[n].p) = {BestW(ShortOnes(D[o.short[n].t]))}
               /\ used(o.short[n], best(ShortOnes(D[o.short[n].t]))))
  \cup (IF ~(all /\ o.exact) THEN {} ELSE UNION {
       Clause("simplicity-likelihood", BestN(TreesOf(res), U, P, q.n)
           /\ \A n \in DOMAIN res : Bits(res[n].p) = P[res[n].t] /\ res[n].n = Shortest(D[res[n].t])
               /\ used(res[n], ShortOnes(D[res[n].t]))) : res \in {o.sldops, o.sldop}})
  \cup Clause("constraints", TreesOf(o.cons) = {t \in U : ToSet(q.req) \subseteq Spans(t) /\ ToSet(q.block) \cap Spans(t) = {}}
           /\ \A n \in DOMAIN o.cons : o.cons[n].p = ResOf(o.mpp, o.cons[n].t).p)
Bad(r) == IF r.err # "" THEN {r.err} ELSE BadDD(r.inp, r.out)
TCheck == Report(Bad(Rec))
=============================================================================
